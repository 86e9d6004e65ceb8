"""C18: order of orderless commands and formatting make no difference."""
from ncdiff import RunningConfigDiff

from .. import running as rr
from .. import device                                      # noqa: F401
from .c16 import signed

BATCHES = dict(quick=1400, thorough=20000)
PER = 40
RULE = ('running-configs in which runs of orderless commands are permuted '
        '(each of the %d kinds of orderless commands at its depth), alone and '
        'together with added and removed lines; and running-configs that are '
        'formatted differently; key: both texts' % sum(
            len(x) for x in rr.ORDERLESS.values()))
ASSUME = ['orderless commands stay between the same ordered commands']
REQUIRED = dict({'permuted': 1000, 'permuted and edited': 1000,
                 'formatted': 1000, 'ordered swap': 500, 'pair': 800,
                 'outdented': 500, 'exit': 100, 'elsewhere': 2000, 'ordered swap 1': 100,
                 'ordered swap 2': 20}, **{
    'kind ' + t.split('{')[0]: 3
    for ts in rr.ORDERLESS.values() for t in ts if '%d' in t})


def nest(rng, depth, lines):
    """Lines at a depth, below sections."""
    t = [[l, None] for l in lines]
    for d in range(depth, 0, -1):
        ts = [x for x in rr.PLAIN[d - 1] if x.endswith('}')]
        t = [[rr.fill(rng, rng.choice(ts))[0], t]]
    return t


def text(rng, t):
    return rr.render(rng, t, step=rng.choice([1, 1, 2, 3]))


def batch(m, rng, index, tier):
    # every kind of orderless commands, two of a kind or of different kinds
    for depth, ts in rr.ORDERLESS.items():
        for t in rng.sample(ts, min(len(ts), 8)):
            u = rng.choice([t, rng.choice(ts)])
            k = rng.randint(2, 5)
            ls = {rr.fill(rng, rng.choice([t, u]), 40)[0] for _ in range(k)}
            ls = sorted(ls)
            rng.shuffle(ls)
            if len(ls) < 2:
                continue
            lo = ls[:]
            while lo == ls:
                rng.shuffle(lo)
            seed = rng.random()
            a = nest(env_rng(seed), depth, ls)
            b = nest(env_rng(seed), depth, lo)
            pair(m, rng, a, b)
            m.ev('pair')
            m.ev('kind ' + t.split('{')[0])
    for n in range(PER):
        m.where = str(n)
        a = rr.level(rng, 0, rng.choice([3, 6, 12]), rng.choice([.5, .9]))
        b = rr.shuffle_runs(rng, a)
        if a != b:
            m.ev('permuted')
        pair(m, rng, a, b)
        # together with other changes: what is in both is not marked
        c = rr.shuffle_runs(rng, rr.edit(rng, a, p=.3))
        ta, tc = text(rng, a), text(rng, c)
        d = RunningConfigDiff(ta, tc)
        both = set(rr.paths(a)) & set(rr.paths(c))
        for D in (d.diff, d.diff_reverse):
            bad = [p for s, p, _ in signed(D) if s and p in both]
            m.expect(not bad, 'line in both configs is marked', str(bad[:3]),
                     running1=ta, running2=tc, diff=str(d))
        m.case(bool(d), (ta, tc))
        m.ev('permuted and edited')
        # formatting
        t1, t2 = text(rng, a), text(rng, a)
        d = RunningConfigDiff(t1, t2)
        m.expect(not d and str(d) == '' and d.cli == '',
                 'formatting makes a difference', str(d), running1=t1,
                 running2=t2)
        m.case(t1 != t2, (t1, t2))
        m.ev('formatted')
        # order of other commands does matter
        swap(m, rng, a)
    elsewhere(m, rng)
    for n in range(4):
        exits(m, rng)
        outdented(m, rng)


def env_rng(seed):
    import random
    return random.Random(seed)


def pair(m, rng, a, b):
    ta, tb = text(rng, a), text(rng, b)
    d = RunningConfigDiff(ta, tb)
    m.expect(not d and d.diff is None and d.diff_reverse is None,
             'order of orderless commands makes a difference', str(d),
             running1=ta, running2=tb)
    m.expect(str(d) == '' and d.cli == '' and d.cli_reverse == '',
             'order of orderless commands makes commands', d.cli,
             running1=ta, running2=tb)
    m.case(ta != tb, (ta, tb), lambda: dict(a=ta[:200], b=tb[:200]))


def swap(m, rng, a):
    """Other commands have an order."""
    spots = []

    def walk(t, depth):
        for i in range(len(t) - 1):
            if not rr.orderless(t[i][0], depth) and \
                    not rr.orderless(t[i + 1][0], depth):
                spots.append((t, i, depth))
        for l, c in t:
            if c:
                walk(c, depth + 1)
    b = rr.copy(a)
    walk(b, 0)
    if spots:
        t, i, depth = rng.choice(spots)
        t[i], t[i + 1] = t[i + 1], t[i]
        differ(m, rng, a, b, '%s / %s' % (t[i][0], t[i + 1][0]))
        m.ev('ordered swap')
        m.ev('ordered swap %d' % depth)


def differ(m, rng, a, b, what):
    ta, tb = text(rng, a), text(rng, b)
    d = RunningConfigDiff(ta, tb)
    m.expect(d and d.diff and d.diff_reverse and str(d),
             'order of ordered commands makes no difference', what,
             running1=ta, running2=tb)


def elsewhere(m, rng):
    """Orderless commands have an order at other depths."""
    for depth, ts in rr.ORDERLESS.items():
        for t in rng.sample(ts, min(len(ts), 3)):
            ds = [d for d in range(5) if d not in rr.depths(t)]
            ls = sorted({rr.fill(rng, t, 40)[0] for _ in range(3)})
            if len(ls) < 2:
                continue
            for d in rng.sample(ds, min(2, len(ds))):
                seed = rng.random()
                rng.shuffle(ls)
                lo = ls[:]
                i = rng.randrange(len(ls) - 1)
                lo[i], lo[i + 1] = lo[i + 1], lo[i]
                differ(m, rng, nest(env_rng(seed), d, ls),
                       nest(env_rng(seed), d, lo), '%s at level %d' % (t, d))
                m.ev('elsewhere')
                m.case(True, (d, tuple(ls), tuple(lo)))


def outdented(m, rng):
    """Sub-commands with less indentation than their parent (DHCP classes)."""
    def line(w, n):
        return '%s %d' % (w, n)
    a, b = [], []
    for t in (a, b):
        for i in rng.sample(range(9), rng.randint(1, 3)):
            kids = [[line('relay-information hex', j), None] for j in
                    rng.sample(range(4), rng.randint(0, 3))]
            t.append([line('relay agent information', i), kids or None])

    def show(t, odd):
        k = rng.randint(2, 4)
        s = ['ip dhcp class CLASS1']
        for l, c in t:
            s.append(' ' * k + l)
            for x, _ in c or []:
                s.append(' ' * (rng.randint(1, k - 1) if odd else k + 2) + x)
                if rng.random() < .2:
                    s.append(rng.choice([' !', '', '   ! x']))
        return '\n'.join(s + ['hostname x'])
    for t in (a, b):
        x, y = show(t, True), show(t, False)
        d = RunningConfigDiff(x, y)
        m.expect(not d and str(d) == '' and d.cli == '',
                 'sub-commands with less indentation', str(d), running1=x,
                 running2=y)
    x, y = RunningConfigDiff(show(a, True), show(b, True)), \
        RunningConfigDiff(show(a, False), show(b, False))
    m.expect(str(x) == str(y) and x.diff == y.diff and x.cli == y.cli,
             'difference of sub-commands with less indentation', str(x),
             expected=str(y))
    m.case(bool(x), (str(a), str(b)))
    m.ev('outdented')


def exits(m, rng):
    """Sections that are closed by different words."""
    names = ['locator-set RLOC%d' % i for i in range(rng.randint(1, 3))]

    def show(words):
        s = ['router lisp']
        for x in names:
            s += [' ' + x, '  IPv4-interface Loopback1 priority 100',
                  '  ' + words[0], ' !']
        s += [' ' + words[1], '!', 'hostname x']
        return '\n'.join(s)
    t1 = show(['exit-locator-set', 'exit-router-lisp'])
    t2 = show(['exit', 'exit'])
    d = RunningConfigDiff(t1, t2)
    m.expect(not d, 'words that close sections make a difference', str(d))
    names.append('locator-set NEW')
    d = RunningConfigDiff(t1, show(['exit', 'exit']))
    plus = {p for s, p, _ in signed(d.diff) if s == '+'}
    minus = {p for s, p, _ in signed(d.diff) if s == '-'}
    m.expect(not minus and ('router lisp', 'locator-set NEW') in plus,
             'section closed by words is not compared', str(d))
    m.case(True, (t1, t2))
    m.ev('exit')
