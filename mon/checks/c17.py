"""C17: commands derived from a difference reach the other config."""
from ncdiff import RunningConfigDiff

from .. import running as rr
from .. import device                                      # noqa: F401

BATCHES = dict(quick=800, thorough=20000)
PER = 40
RULE = ('pairs of running-configs of a simulated device (commands in the '
        'order of the device; overwritable commands, commands removed by '
        'their first words, longer forms that replace shorter ones, features '
        'that are shown when off, or always); the commands are executed by '
        'the simulated device; key: both texts')
ASSUME = ['the simulated device follows the comments of runningconfig.py',
          'one command of each overwritable kind in a section (see the known '
          'findings)']
REQUIRED = {'commands': 5000, 'no': 3000, 'section': 2000, 'overwritten': 300,
            'short no': 200, 'grown': 200, 'shrunk': 200, 'switched on': 300,
            'switched off': 300, 'flipped': 300, 'chars not words': 200}


def count(m, cmds, depth=0):
    for line, sub in cmds:
        m.ev('commands')
        if sub:
            m.ev('section')
            count(m, sub, depth + 1)
        elif line.startswith('no '):
            m.ev('no')


def classify(m, a, b, depth=0):
    A, B = {l: c for l, c in a}, {l: c for l, c in b}
    old = {rr.slot(l, depth): l for l in A}
    for l in B:
        if l not in A:
            o = old.get(rr.slot(l, depth))
            if any(l != x and l.startswith(x) and l[len(x)] != ' '
                   for x in list(A) + list(B)):
                m.ev('chars not words')
            if o:
                bare = l[3:] if l.startswith('no ') else l
                if bare in rr.BOTH.get(depth, ()):
                    m.ev('flipped')
                elif any(l.startswith(t) for t in rr.SLOTS.get(depth, ())):
                    m.ev('overwritten')
                elif l.startswith(o):
                    m.ev('grown')
                elif o.startswith(l):
                    m.ev('shrunk')
            elif l.startswith('no '):
                m.ev('switched off')
        elif A[l] and B[l]:
            classify(m, A[l], B[l], depth + 1)
    for l in A:
        if l not in B:
            if l.startswith('no ') and l[3:] in rr.DEFAULT_ON.get(depth, ()):
                m.ev('switched on')
            if any(l.startswith(t) for t in rr.SHORT.get(depth, ())):
                m.ev('short no')


H = 'interface Gi1\n'
# commands that the tool takes for overwriting ones, though they are not
# (known findings): (kind, lines before, lines after, derived by mistake)
PROBES = [
    ('several ipv6 addresses', ['ipv6 address 2001::1/64'],
     ['ipv6 address 2001::1/64', 'ipv6 address 2002::1/64',
      'ipv6 address 2003::1/64'], H + '  ipv6 address 2003::1/64'),
    ('secondary ip address', ['mtu 9000'],
     ['mtu 9000', 'ip address 192.0.2.1 255.255.255.0',
      'ip address 198.51.100.1 255.255.255.0 secondary'],
     H + '  ip address 198.51.100.1 255.255.255.0 secondary')]


def probe(m):
    for kind, a, b, known in PROBES:
        ta, tb = [H + ''.join(' %s\n' % x for x in y) for y in (a, b)]
        cli = RunningConfigDiff(ta, tb).cli
        want = [[H.strip(), [[x, []] for x in b if x not in a]]]
        if cli == known:
            m.bad(kind, cli, running1=ta, running2=tb)
        else:
            m.expect([[l, [[x, list(y)] for x, y in c]] for l, c in
                      rr.parse_cli(cli)] == want,
                     'addresses are not added', cli, running1=ta, running2=tb)


def batch(m, rng, index, tier):
    if index == 0:
        probe(m)
    for n in range(PER):
        m.where = str(n)
        a, b = rr.dev_pair(rng, 0, rng.choice([2, 4, 8, 14]))
        ta = rr.render(rng, a, step=rng.choice([1, 1, 2, 3]))
        tb = rr.render(rng, b, step=rng.choice([1, 1, 2]))
        d = RunningConfigDiff(ta, tb)
        if rng.random() < .5:
            str(d), d.cli_reverse
        fwd, rev = d.cli, d.cli_reverse
        m.case(bool(d), (ta, tb), lambda: dict(a=ta[:300], b=tb[:300],
                                               cli=fwd[:400]))
        classify(m, a, b)
        for cli, x, y, way in ((fwd, a, b, 'forward'), (rev, b, a, 'reverse'),
                               (RunningConfigDiff(tb, ta).cli, b, a,
                                'other way round')):
            data = dict(running1=ta if x is a else tb,
                        running2=tb if x is a else ta, cli=cli)
            cmds = rr.parse_cli(cli)
            count(m, cmds)
            dev = rr.Device(x)
            try:
                dev.run(cmds)
            except rr.Rejected as e:
                m.bad('command rejected', '%s: %s' % (way, e), **data)
                continue
            if dev.norm() != rr.norm(y):
                got, want = dev.norm(), rr.norm(y)
                m.bad('commands do not reach the config', '%s: %s' % (
                    way, delta(got, want)), **data)
        m.expect(d.cli == fwd, 'commands are not reproducible')


def delta(got, want):
    g, w = dict(got), dict(want)
    out = ['+ ' + l for l in g if l not in w] + [
        '- ' + l for l in w if l not in g]
    for l in g:
        if l in w and g[l] != w[l]:
            out.append('%s { %s }' % (l, delta(g[l], w[l])))
    return '; '.join(sorted(out))
