"""C16: a running-config difference accounts for every line."""
from ncdiff import RunningConfigDiff

from .. import running as rr
from .. import device                                      # noqa: F401

BATCHES = dict(quick=800, thorough=20000)
PER = 40
RULE = ('pairs of running-configs up to five levels deep (orderless and '
        'ordered commands, sections, RADIUS proxies without indentation) that '
        'differ by removed, added, changed and moved lines, with noise '
        '(comments, blanks, headers, other indentation); key: both texts')
ASSUME = ['lines of one section are unique',
          'indentation grows by one step for each level']
REQUIRED = {'edit': 1000, 'move': 1000, 'moved line': 300, 'same': 100,
            'added section': 200, 'removed section': 200, 'proxy': 100,
            'deep change': 200, 'permuted': 100}


def signed(D, pre=(), sign=''):
    for k, v, i in D or []:
        s = sign or i
        yield s, pre + (k,), v is not None
        if v:
            yield from signed(v, pre + (k,), s)


def without(t, drop, pre=()):
    return [[l, without(c or [], drop, pre + (l,))] for l, c in t
            if pre + (l,) not in drop]


def shown(text):
    """(sign, path) of the lines of a printed difference."""
    out, stack = [], []
    for line in text.splitlines():
        s, rest = line[0], line[1:]
        ind = len(rest) - len(rest.lstrip(' '))
        while stack and stack[-1][0] >= ind:
            stack.pop()
        path = (stack[-1][1] if stack else ()) + (rest.strip(),)
        stack.append((ind, path))
        out.append((s.strip(), path))
    return out


def moved_ok(D):
    """A line that is removed and added has something in between."""
    pos = {}
    for n, (k, v, i) in enumerate(D):
        if v and i == '':
            if not moved_ok(v):
                return False
        if i in '+-' and i:
            pos.setdefault(k, []).append((n, i))
    for k, p in pos.items():
        if len(p) == 2:
            if not any(D[j][2] == '' for j in range(p[0][0] + 1, p[1][0])):
                return False
    return True


def judge(m, D, text, a, b, what, data):
    minus = {p for s, p, _ in signed(D) if s == '-'}
    plus = {p for s, p, _ in signed(D) if s == '+'}
    A, B = set(rr.paths(a)), set(rr.paths(b))
    m.expect(minus <= A, 'removed line that was not there', lambda: '%s %s' % (
        what, sorted(minus - A)[:3]), **data)
    m.expect(plus <= B, 'added line that is not there', lambda: '%s %s' % (
        what, sorted(plus - B)[:3]), **data)
    ctx = {p for s, p, _ in signed(D) if s == ''}
    m.expect(ctx <= A & B, 'unchanged line that is not in both configs',
             lambda: '%s %s' % (what, sorted(ctx - (A & B))[:3]), **data)
    m.expect(A - minus == B - plus, 'line not accounted for',
             lambda: '%s %s' % (what, sorted((A - minus) ^ (B - plus))[:3]),
             **data)
    m.expect(rr.loose(without(a, minus)) == rr.loose(without(b, plus)),
             'unmarked lines are in another order', what, **data)
    m.expect(moved_ok(D or []), 'moved line without reference to others',
             what, **data)
    m.expect(bool(D) != rr.same(a, b), 'empty difference of different configs'
             if not D else 'difference of equal configs', what, **data)
    if text is not None:
        m.expect(shown(text) == [(s, p) for s, p, _ in signed(D)],
                 'text does not show the difference', what, **data)
    return minus, plus


def batch(m, rng, index, tier):
    for n in range(PER):
        kind = rng.choice(['edit', 'edit', 'move', 'move', 'same', 'proxy'])
        m.where = '%s %d' % (kind, n)
        if kind == 'proxy':
            a, b, ta, tb = proxies(rng)
        else:
            a = rr.level(rng, 0, rng.choice([2, 4, 7, 12, 20]),
                         rng.choice([0, .3, .6, .9]))
            b = rr.copy(a)
            if kind != 'same':
                b = rr.edit(rng, b, p=rng.choice([.1, .25, .5]),
                            move=kind == 'move')
            if rng.random() < .5:
                c = rr.shuffle_runs(rng, b)
                if c != b:
                    m.ev('permuted')
                b = c
            ta = rr.render(rng, a, step=rng.choice([1, 1, 2, 3]))
            tb = rr.render(rng, b, step=rng.choice([1, 1, 2, 4]))
        m.ev(kind)
        data = dict(running1=ta, running2=tb)
        d = RunningConfigDiff(ta, tb)
        first = rng.choice(['diff', 'diff_reverse', 'cli', 'cli_reverse',
                            'str'])
        str(d) if first == 'str' else getattr(d, first)
        D, E = d.diff, d.diff_reverse
        text = str(d)
        data['difference'] = text
        minus, plus = judge(m, D, text, a, b, 'forward', data)
        judge(m, E, None, b, a, 'reverse', data)
        m.expect(bool(d) == bool(D), 'truth differs from the difference')
        m.expect((d.cli == '') == (not D) or D, 'commands of no difference',
                 d.cli, **data)
        if not D:
            m.expect(text == '' and d.cli == '' and d.cli_reverse == '',
                     'no difference, but text or commands',
                     text + d.cli + d.cli_reverse, **data)
        # the same again, and the other way round
        d2 = RunningConfigDiff(ta, tb)
        m.expect(d2 == d and str(d2) == text, 'not reproducible', **data)
        r = RunningConfigDiff(tb, ta)
        judge(m, r.diff, str(r), b, a, 'other way round', data)
        m.expect(d.running1 == ta and d.running2 == tb, 'input changed')
        m.expect((r == d) == (str(r) == text), 'equality', **data)
        m.case(bool(D), (ta, tb), lambda: dict(a=ta[:300], b=tb[:300],
                                               diff=text[:300]))
        m.ev('moved line', len(minus & plus))
        for s, p, sec in signed(D):
            if s and sec:
                m.ev('added section' if s == '+' else 'removed section')
            if s and len(p) > 2:
                m.ev('deep change')


def proxies(rng):
    a = rr.proxy(rng)
    b = [[l, c] for l, c in a if rng.random() < .7]
    for x in rr.proxy(rng):
        if x[0] not in [l for l, _ in b] and rng.random() < .4:
            b.insert(rng.randint(0, len(b)), x)
    for x in b:
        if x[1] and rng.random() < .4:
            x[1] = [k for k in x[1] if rng.random() < .6] or None
    b = b or rr.proxy(rng)
    top = [['hostname x', None]]
    end = [['interface Gi1', [['mtu 9', None]]]]
    out = []
    for t in (a, b):
        out.append(top + [['aaa server radius proxy', t]] + end)
    for t in (a, b):
        out.append('\n'.join(['hostname x'] + rr.render_proxy(t, rng) + [
            'interface Gi1', ' mtu 9']))
    return out
