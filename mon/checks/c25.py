"""C25: threads that share a device do not disturb each other."""
import os
import random
import sys
import threading
import time

from lxml import etree
from ncdiff import Config, ConfigDelta
from ncdiff.composer import Tag

from .. import work
from ..refmodel import canon
from .c19 import shape

BATCHES = dict(quick=140, thorough=4000)
RULE = ('deltas (also randomised ones), sums, comparisons, configs, filters, '
        'paths and lookups of random configs, computed by 2 to 5 threads of a '
        'device whose caches are empty, in different orders, while threads '
        'are preempted inside ncdiff; the same is computed again by one '
        'thread; key: documents, tasks of each thread, order of switches')
REQUIRED = {'switches': 20000, 'task': 3000, 'delta': 300, 'randomised': 300,
            'sum': 200, 'comparison': 200, 'parse': 200, 'filter': 100,
            'lookup': 200, 'paths': 150, 'shared configs': 300,
            'global random numbers': 300, 'meeting places': 300}
NCDIFF = None
BATCH_LIMIT = 300


def setup(tier):
    work.rich()


def where():
    global NCDIFF
    if NCDIFF is None:
        import ncdiff
        NCDIFF = os.path.dirname(os.path.abspath(ncdiff.__file__)) + os.sep
    return NCDIFF


def forget(dev, rng):
    """Nothing has been looked up yet."""
    if rng.random() < .6:
        dev.scan_models(folder=dev.compiler.dir_yang, download='ignore')
    if isinstance(getattr(dev, 'nodes', None), dict):
        dev.nodes.clear()


class Scheduler:
    """Preempts threads at lines of ncdiff, and records who ran after whom."""

    def __init__(self, p, hot=()):
        self.p, self.last, self.trail, self.hot = p, None, [], hot

    def tracer(self, t, seed):
        rng = random.Random(seed)
        top = where()
        left = {x: 12 for x in self.hot}

        def local(frame, event, arg):
            if self.last != t:
                self.last = t
                self.trail.append((t, frame.f_lineno))
            if left.get(frame.f_code.co_qualname):
                # threads meet in this function
                left[frame.f_code.co_qualname] -= 1
                time.sleep(rng.choice([2e-4, 1e-3]))
            elif event == 'line' and rng.random() < self.p:
                time.sleep(rng.choice([0, 0, 0, 1e-5, 5e-5]))
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(top) else None
        return tracer


def tasks(rng, W, g):
    """(kind, function) whose results do not depend on when it is run."""
    dev = W.dev
    A, B = work.pair(rng, g)
    ta, tb = g.render(A), g.render(B)
    sa, sb = Config(dev, ta), Config(dev, tb)
    o = rng.choice(work.options(rng, 4))
    shared = rng.random() < .5

    def two():
        return (sa, sb) if shared else (Config(dev, ta), Config(dev, tb))

    def delta():
        a, b = two()
        return shape(ConfigDelta(a, b, **o).nc)

    depth, seed = rng.choice([0, 1, 2]), rng.randrange(10000)

    def randomised():
        a, b = two()
        return shape(ConfigDelta(a, b, random_depth=depth, random_seed=seed,
                                 **o).nc)

    def total():
        a, b = two()
        return canon(W.P.config((a + (b - a)).ele))

    def comparison():
        a, b = two()
        return [a == b, a <= b, a < b, a >= b, a != b, bool(b - a)]

    def parse():
        c = Config(dev, ta)
        return canon(W.P.config(c.ele)), c.models, sorted(c.roots)

    names = sorted({etree.QName(e).localname for e in sa.ele.iter(
        etree.Element)})
    pick = rng.choice(names)

    def filter_():
        c = two()[0]
        x = c.filter('//*[local-name()="%s"]' % pick)
        return canon(W.P.config(x.ele))

    def lookup():
        c = two()[0]
        out = []
        for e in c.ele.iterdescendants(etree.Element):
            s = dev.get_schema_node(e)
            out.append((s.tag, s.get('type'), dev.get_model_name(e),
                        dev.get_xpath(s, type=Tag.LXML_XPATH)))
            if s.get('type') in ('container', 'list'):
                out.append([x.tag for x in dev.default_in_use(s)])
        return out

    def paths():
        c = two()[0]
        return [dev.get_xpath(e, type=t) for e in c.ele.iterdescendants(
            etree.Element) for t in (Tag.XPATH, Tag.LXML_XPATH)]
    kinds = dict(delta=delta, randomised=randomised, sum=total,
                 comparison=comparison, parse=parse, filter=filter_,
                 lookup=lookup, paths=paths)
    return [(k, shared, f, ta, tb) for k, f in kinds.items()]


def functions(todo):
    """Functions of ncdiff that the tasks use."""
    seen = set()
    top = where()

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(top):
            seen.add(frame.f_code.co_qualname)
    sys.settrace(tracer)
    try:
        for x in todo:
            x[2]()
    finally:
        sys.settrace(None)
    return sorted(seen)


def batch(m, rng, index, tier):
    W = work.world(rng, 'th%d' % index, p_rich=.1)
    todo = []
    for _ in range(rng.randint(1, 3)):
        todo += tasks(rng, W, work.gen(rng, W))
    n = rng.randint(2, 5)
    if rng.random() < .4:
        # all threads do the same kind of thing
        kind = rng.choice(['randomised', todo[0][0], rng.choice(todo)[0]])
        todo += [x for _ in range(3)
                 for x in tasks(rng, W, work.gen(rng, W))]
        todo = [x for x in todo if x[0] == kind]
        m.ev('focus')
    plans = []
    for t in range(n):
        p = [x for x in todo if rng.random() < .6]
        rng.shuffle(p)
        plans.append(p)
    hot = ()
    if rng.random() < .6:
        hot = [x for x in functions(todo) if rng.random() < .2]
        m.ev('meeting places', len(hot))
    forget(W.dev, rng)
    S = Scheduler(rng.choice([.02, .08, .2]), hot)
    seeds = [rng.random() for _ in range(n)]
    gate = threading.Barrier(n)
    out = []
    state = random.getstate()

    def run(t):
        gate.wait()
        sys.settrace(S.tracer(t, seeds[t]))
        try:
            for x in plans[t]:
                try:
                    r = x[2]()
                except Exception as e:
                    r = e
                out.append((t, x, r))
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([.005, 1e-4, 1e-6]))
    try:
        ts = [threading.Thread(target=run, args=(t,), daemon=True)
              for t in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    if not m.expect(not any(t.is_alive() for t in ts),
                    'a thread does not end', ''):
        return
    m.expect(random.getstate() == state,
             'random numbers of the program are disturbed', '')
    m.ev('global random numbers', len(todo))
    m.ev('switches', len(S.trail))
    want = {}
    forget(W.dev, rng)
    for x in todo:
        want[id(x)] = x[2]()
    for t, x, r in out:
        kind, shared, f, ta, tb = x
        m.ev('task')
        m.ev(kind)
        if shared:
            m.ev('shared configs')
        m.expect(type(r) is type(want[id(x)]) and r == want[id(x)],
                 'another result with threads', '%s in thread %d: %r' % (
                     kind, t, r), expected=want[id(x)], a=ta, b=tb)
        m.case(True, (kind, t, n, ta, tb, tuple(S.trail[:200])),
               lambda: dict(kind=kind, threads=n, switches=len(S.trail)))
