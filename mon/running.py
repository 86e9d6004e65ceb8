"""Running-configs: generator, reference reading of texts, and a simulated
device that executes CLI commands.

A config is a list of nodes [line, children or None]; lines of siblings are
unique."""
import re

# commands whose order within a run of such commands does not matter, by
# depth (as listed in the documentation of the class, see DESIGN.md)
ORDERLESS = {
    0: ['aaa authentication login a%d group tacacs+ local',
        'aaa accounting system default group g%d', 'aaa attribute list L%d{}',
        'aaa group server radius G%d{g}', 'radius server R%d{}',
        'logging host 10.1.1.%d', 'flow exporter E%d{}', 'flow record R%d{f}',
        'flow monitor M%d{m}', 'flow file-export F%d{}',
        'dot1x supplicant s%d', 'service-template T%d{}', 'redundancy{}',
        'username user%d privilege 1 secret 5 x', 'parameter-map type p%d{}',
        'l2nat instance I%d{n}', 'crypto keyring K%d{}',
        'crypto tls-tunnel C%d{}', 'vlan group g%d vlan-list 1-9',
        'router ospf %d{o}', 'router bgp %d{b}', 'ip dns view v%d{}',
        'ip route 10.%d.0.0 255.255.0.0 Null0',
        'ipv6 route 2001:%d::/32 Null0', 'ip multicast-routing vrf v%d',
        'ipv6 multicast-routing vrf v%d', 'ip pim vrf v%d rp-address 1.1.1.1',
        'ipv6 pim vrf v%d register-source Lo0',
        'ip pim rp-address 10.9.9.%d', 'ipv6 pim rp-address 2001:9::%d',
        'ip access-list extended A%d{a}', 'ipv6 access-list A%d{a}',
        'ip dhcp pool P%d{d}', 'ipv6 dhcp pool P%d{}', 'ntp server 10.7.7.%d',
        'mpls mldp static s%d', 'mpls ldp advertise-labels for acl%d',
        'device-tracking binding vlan %d 1.1.1.1',
        'device classifier c%d', 'netconf-yang feature f%d'],
    1: ['exporter e%d', 'match ipv4 field%d', 'match ipv6 field%d',
        'match protocol proto%d', 'collect connection c%d',
        'inside from host 10.0.0.%d to 1.1.1.1',
        'outside from host 10.0.1.%d to 1.1.1.1',
        'inside from network 10.%d.0.0 to 1.1.1.0',
        'outside from network 10.%d.0.0 to 1.1.1.0',
        'inside from range 10.0.0.%d to 1.1.1.1',
        'outside from range 10.0.0.%d to 1.1.1.1',
        'neighbor 10.0.0.%d remote-as 7', 'ip helper-address 10.3.3.%d',
        'route-target import 1:%d', 'route-target export 1:%d',
        'default-router 10.4.4.%d', 'dns-server 10.5.5.%d',
        'domain-name d%d.com', 'option %d ip 1.1.1.1', 'lease %d',
        'ip ospf message-digest-key %d md5 x', 'ospfv3 neighbor FE80::%d',
        'ospfv3 %d ipv4 neighbor FE80::1', 'ospfv3 %d neighbor FE80::1',
        'area %d stub', 'redistribute bgp %d',
        'distribute-list prefix-list p%d in', 'cdp tlv-type %d',
        'mac Regex %d', 'summary-address 10.%d.0.0', 'member vni %d'],
    2: ['neighbor 10.0.0.%d activate', 'no neighbor 10.0.1.%d activate',
        'redistribute ospf %d', 'bandwidth remaining ratio %d'],
    3: ['redistribute isis %d'],
    4: ['mobile-network pool p%d', 'mobile-network v6pool p%d'],
}
# children that a command may have besides commands of the depth
ALL = {d: [re.compile('^' + re.escape(t.split('{')[0]).replace(
    '%d', r'\d+') + '$') for t in ts] for d, ts in ORDERLESS.items()}

# order of these commands matters
PLAIN = {
    0: ['hostname h%d', 'boot system flash:i%d', 'ip domain name d%d.com',
        'spanning-tree mode m%d', 'vlan %d{v}', 'interface Gi0/%d{i}',
        'line vty %d 9{l}', 'class-map match-any C%d{c}', 'policy-map P%d{s}',
        'access-list 10 permit 10.0.0.%d', 'route-map M permit %d{s}',
        'snmp-server community c%d RO', 'template t%d{s}', 'clock zone %d',
        'vrf definition V%d{s}', 'archive{s}', 'event manager applet e%d{s}'],
    1: ['set metric %d', 'name n%d', 'mtu %d', 'speed %d', 'duplex d%d',
        'section %d{s}', 'address-family ipv%d{s}', 'class c%d{s}',
        'logging event e%d', 'permit ip host 10.0.0.%d any', 'cost %d',
        'switchport trunk native vlan %d'],
    2: ['set tag %d', 'timer %d', 'subsection %d{s}', 'shape rate %d',
        'priority level %d'],
    3: ['deep %d', 'deeper %d{s}', 'key %d'],
    4: ['bottom %d', 'last %d'],
}


def orderless(line, depth):
    return any(p.match(line) for p in ALL.get(depth, ()))


def depths(t):
    """Where commands of a kind have no order."""
    for word, ds in (('neighbor', (1, 2)), ('redistribute', (1, 2, 3))):
        if t.startswith(word):
            return ds
    return tuple(d for d, ts in ORDERLESS.items() if t in ts)


def fill(rng, t, n=5):
    has = t.endswith('}')
    t = t.split('{')[0]
    return (t % rng.randint(1, n * 4 if rng.random() < .2 else n)
            if '%d' in t else t), has


def level(rng, depth, size, p_ord=.5, maxd=4):
    """Lines of one level: runs of orderless and of plain commands."""
    out, seen = [], set()
    todo = rng.randint(0 if depth else 1, size)
    k = 0
    while len(out) < todo and k < 60:
        k += 1
        tab = ORDERLESS if rng.random() < p_ord and depth in ORDERLESS \
            else PLAIN
        ts = rng.sample(tab[depth], min(len(tab[depth]), rng.choice([1, 2])))
        for _ in range(rng.randint(1, 4)):
            line, has = fill(rng, rng.choice(ts))
            if line in seen:
                continue
            seen.add(line)
            sub = None
            if has and depth < maxd and rng.random() < .8:
                sub = level(rng, depth + 1, max(1, size // 2), p_ord,
                            maxd) or None
            out.append([line, sub])
    return out


def copy(t):
    return [[l, None if c is None else copy(c)] for l, c in t]


def edit(rng, t, depth=0, p=.25, move=False, p_ord=.5):
    """Another version of a config."""
    out = []
    for l, c in t:
        r = rng.random()
        if r < p * .5:
            continue
        if c is not None and rng.random() < .6:
            c = edit(rng, c, depth + 1, p, move, p_ord) or None
        elif c is None and rng.random() < .02:
            pass
        else:
            c = None if c is None else copy(c)
        out.append([l, c])
    seen = {l for l, c in t}
    for x in level(rng, depth, 3, p_ord) if rng.random() < p * 3 else []:
        if x[0] not in seen:
            seen.add(x[0])
            out.insert(rng.randint(0, len(out)), x)
    if move and len(out) > 1 and rng.random() < .5:
        for _ in range(rng.randint(1, 2)):
            x = out.pop(rng.randrange(len(out)))
            out.insert(rng.randint(0, len(out)), x)
    return out


def shuffle_runs(rng, t, depth=0):
    """Permutes runs of orderless commands."""
    out, run = [], []

    def flush():
        rng.shuffle(run)
        out.extend(run)
        del run[:]
    for l, c in t:
        n = [l, None if c is None else shuffle_runs(rng, c, depth + 1)]
        if orderless(l, depth):
            run.append(n)
        else:
            flush()
            out.append(n)
    flush()
    return out


def render(rng, t, depth=0, noise=True, step=1):
    """Text of a config; noise means nothing."""
    s = []

    def junk():
        if noise and rng.random() < .12:
            s.append(rng.choice(['', '!', ' !', '! comment', '   ',
                                 '% note', ' ' * depth * step + '!']))
    if noise and depth == 0 and rng.random() < .3:
        s += ['Building configuration...', '',
              'Current configuration : %d bytes' % rng.randint(9, 9999)]
    for l, c in t:
        junk()
        s.append(' ' * (depth * step) + l + (
            ' ' * rng.randint(1, 2) if noise and rng.random() < .1 else ''))
        if c:
            s += render(rng, c, depth + 1, noise, step)
        if noise and depth == 0 and rng.random() < .3:
            s.append('!')
    return s if depth else '\n'.join(s) + ('\n' if rng.random() < .8 else '')


def paths(t, pre=()):
    """All lines with their ancestors."""
    for l, c in t:
        yield pre + (l,)
        if c:
            yield from paths(c, pre + (l,))


def norm(t):
    """Config as an unordered tree."""
    return frozenset((l, norm(c or [])) for l, c in t)


def same(a, b, depth=0):
    """The same config: order of plain commands, runs of orderless ones."""
    return canon(a, depth) == canon(b, depth)


def canon(t, depth=0):
    out, run = [], []
    for l, c in t:
        n = (l, canon(c or [], depth + 1))
        if orderless(l, depth):
            run.append(n)
        else:
            out.append(sorted(run))
            run = []
            out.append(n)
    out.append(sorted(run))
    return [x for x in out if x != []]


def loose(t, depth=0):
    """Ordered commands in their order, orderless ones as a set."""
    x = [(l, loose(c or [], depth + 1)) for l, c in t]
    return ([n for n in x if not orderless(n[0], depth)],
            sorted(n for n in x if orderless(n[0], depth)))


def parse_cli(text):
    """Commands with the commands of their sub-modes (by indentation)."""
    root = []
    stack = [(-1, root)]
    for line in text.splitlines():
        if not line.strip() or line.strip() == '!':
            continue
        ind = len(line) - len(line.lstrip(' '))
        while stack[-1][0] >= ind:
            stack.pop()
        n = [line.strip(), []]
        stack[-1][1].append(n)
        stack.append((ind, n[1]))
    return root


# ---- a device that executes commands -------------------------------------

# features that are on unless 'no ...' is in the running-config
DEFAULT_ON = {0: ['service pad', 'ip domain lookup', 'ip http server'],
              1: ['negotiation auto', 'cdp enable', 'synchronization'],
              2: ['auto-summary']}
# both the command and its negation are shown
BOTH = {0: ['platform punt-keepalive disable-kernel-core', 'call-home'],
        1: ['shutdown', 'autostate']}
# at most one of these (a new one overwrites the old one)
SLOTS = {0: ['username bob privilege 15 password ',
             'username bobby privilege 15 password ',
             'username al privilege 1 password '],
         1: ['description ', 'ip address ', 'password ', 'ipv6 address '],
         2: ['description ']}
# at most one of these; a command is removed by its first words
SHORT = {0: ['license boot level '],
         1: ['transport input ', 'transport output '], 2: []}
ADDRESSES = ['ip address ', 'ipv6 address ']
# commands that look like others to those who compare characters
ALIKE = {0: ['license boot levels %d', 'license boot level-x %d',
             'service padx', 'ip domain lookups', 'usernames %d',
             'exception crashinfos', 'logging buffered-x %d',
             'snmp-server managers', 'platform punt-keepalive disable %d',
             'nokia %d', 'notify %d'],
         1: ['transport inputs %d', 'transport input-x %d',
             'transport outputs x', 'ip addressing %d', 'ip address-x %d',
             'ipv6 addresses %d', 'descriptions %d', 'passwords %d',
             'shutdowns', 'negotiation autos', 'exec-timeout 31 %d',
             'spanning-tree guards'],
         2: ['descriptions %d', 'auto-summaryx', 'policex %d']}
# longer forms replace shorter ones
GROWING = {0: [['service timestamps debug datetime msec', 'localtime',
                'show-timezone'],
               ['exception crashinfo', 'file bootflash:x'],
               ['logging buffered', '8192']],
           1: [['spanning-tree guard', 'root'], ['exec-timeout 3', '30']],
           2: [['police', 'cir 8000']]}


# a longer form that is a section replaces the shorter one
SECTIONS = {0: [['key chain', 'K1']], 1: [['vrf forwarding', 'blue']]}


# the longer form is shown beside the shorter one
COEXIST = [['snmp-server manager', 'session-timeout 100'],
           ['ip multicast-routing', 'distributed'],
           ['ip dhcp relay information option', 'vpn']]


def coexist(line):
    return any(line == x[0] for x in COEXIST)


def dev_level(rng, depth, size):
    """A level of a config as a device has it: commands in a fixed order,
    except for runs of orderless ones."""
    out = []
    for x in level(rng, depth, size, .4, 2):
        if not any(p[-1].startswith('no ') for p in paths([x])):
            out.append(x)
    for t in DEFAULT_ON[depth]:
        if rng.random() < .3:
            out.append(['no ' + t, None])
    for t in BOTH.get(depth, ()):
        out.append([rng.choice(['', 'no ']) + t, None])
    for t in SLOTS[depth] + SHORT[depth]:
        if rng.random() < .4:
            out.append([t + rng.choice(['1.1.1.1 255.0.0.0', '10.2.2.2 255.0.0.0',
                                        'word', 'two words', '7 045A']), None])
    for t in ALIKE[depth]:
        if rng.random() < .1:
            out.append([t % rng.randint(1, 2) if '%d' in t else t, None])
    for t in GROWING[depth]:
        if rng.random() < .4:
            out.append([' '.join(t[:rng.randint(1, len(t))]), None])
    for t in SECTIONS.get(depth, ()):
        if rng.random() < .3:
            out.append(rng.choice([[t[0], None], [
                ' '.join(t), dev_level(rng, depth + 1, 2) or None]]))
    for x in out:
        if x[1]:
            x[1] = dev_level(rng, depth + 1, 3) if rng.random() < .7 else x[1]
    return out


def rank(line):
    """Place of a command among its siblings."""
    bare = line[3:] if line.startswith('no ') else line
    for tabs in (DEFAULT_ON, BOTH, SLOTS, SHORT):
        for d in tabs:
            for t in tabs[d]:
                if bare.startswith(t):
                    return t
    for d in GROWING:
        for t in GROWING[d] + SECTIONS.get(d, []):
            if bare.startswith(t[0]):
                return t[0]
    return re.sub(r'\d+', '', line)


def dev_pair(rng, depth=0, size=8):
    a = dev_level(rng, depth, size)
    b = []
    for l, c in a:
        if rng.random() < .75:
            b.append([l, c if c is None else copy(c)])
    seen = {l for l, _ in a}
    uniq = {slot(l, depth) for l, _ in b}
    for x in dev_level(rng, depth, max(1, size // 2)):
        s = slot(x[0], depth)
        if s in uniq or x[0] in seen:
            continue
        uniq.add(s)
        seen.add(x[0])
        b.append(x)
    for t in BOTH.get(depth, ()):
        if not any(l in (t, 'no ' + t) for l, _ in b):
            b.append([rng.choice(['', 'no ']) + t, None])
    both = {l: c for l, c in a}
    for x in b:
        if x[0] in both and x[1] and rng.random() < .7:
            # two versions of the section
            i = [l for l, _ in a].index(x[0])
            a[i][1], x[1] = dev_pair(rng, depth + 1, 4)
            a[i][1] = a[i][1] or None
            x[1] = x[1] or None
        elif x[0] in both and x[1] and rng.random() < .2 and not any(
                t in (l, l[3:]) for l, _ in x[1]
                for t in BOTH.get(depth + 1, ())):
            x[1] = None
    if depth == 0:
        for short, rest in COEXIST:
            for t in (a, b):
                t[:] = [x for x in t if not x[0].startswith(short)]
                t += [[short, None], [short + ' ' + rest, None]][
                    :rng.choice([0, 0, 1, 2])]
    ranks = {}
    for l, _ in a + b:
        ranks.setdefault(rank(l), rng.random())
    num = {l: rng.random() for l, _ in a + b}
    for t in (a, b):
        t.sort(key=lambda x: (ranks[rank(x[0])], num[x[0]]))
    if rng.random() < .3 and len(b) > 1:
        for _ in range(rng.randint(1, 3)):
            b.insert(rng.randrange(len(b)), b.pop(rng.randrange(len(b))))
    return a, b


def slot(line, depth):
    """Commands with the same slot exclude each other."""
    bare = line[3:] if line.startswith('no ') else line
    for tabs in (DEFAULT_ON, BOTH):
        for t in tabs.get(depth, ()):
            if bare == t:
                return t
    for tabs in (SLOTS, SHORT):
        for t in tabs.get(depth, ()):
            if line.startswith(t):
                return t
    for t in GROWING.get(depth, []) + SECTIONS.get(depth, []):
        if line == t[0] or line.startswith(t[0] + ' '):
            return t[0]
    return line


class Rejected(Exception):
    pass


class Device:
    """Executes commands; lines of a level are kept in a dict."""

    def __init__(self, t):
        self.t = self.load(t)
        self.removed = set()

    def load(self, t):
        return {l: self.load(c or []) for l, c in t}

    def norm(self, d=None):
        d = self.t if d is None else d
        return frozenset((l, self.norm(c)) for l, c in d.items())

    def run(self, cmds, d=None, depth=0, path=()):
        d = self.t if d is None else d
        for line, sub in cmds:
            if sub:
                if line.startswith('no '):
                    raise Rejected('%r is not a section' % line)
                self.run(sub, d.setdefault(line, {}), depth + 1,
                         path + (line,))
            else:
                self.command(line, d, depth, path)

    def command(self, line, d, depth, path=()):
        neg = line.startswith('no ')
        x = line[3:] if neg else line
        if x in BOTH.get(depth, ()):
            d.pop(x if neg else 'no ' + x, None)
            d[line] = {}
        elif x in DEFAULT_ON.get(depth, ()):
            if neg:
                d[line] = {}
            else:
                d.pop('no ' + x, None)
        elif neg:
            for t in SHORT.get(depth, []) + ADDRESSES:
                if x.startswith(t):
                    raise Rejected('%r: only %r is accepted' % (
                        line, 'no ' + t))
            for t in SLOTS.get(depth, ()):
                if t not in ADDRESSES and (
                        x == t.strip() or x.startswith(t)):
                    self.removed.add((path, t))
            hit = [y for y in d if y == x or y.startswith(x + ' ')]
            if not hit:
                raise Rejected('%r: there is nothing to remove' % line)
            for y in hit:
                del d[y]
        else:
            for t in SLOTS.get(depth, ()):
                if x.startswith(t):
                    if (path, t) in self.removed:
                        raise Rejected('%r: was removed first' % line)
                    for y in [y for y in d if y.startswith(t)]:
                        del d[y]
            for y in [y for y in d if x.startswith(y + ' ')]:
                if not d[y] and not coexist(y):
                    del d[y]
            d.setdefault(x, {})


# ---- spellings that devices really show -----------------------------------

def proxy(rng, n=4):
    """[client command, its commands] of a RADIUS proxy."""
    out = []
    for i in rng.sample(range(1, 9), rng.randint(1, n)):
        kids = [['accounting port %d' % rng.randint(1, 4), None],
                ['timer disconnect acct-stop %d' % rng.randint(1, 3), None],
                ['key k%d' % rng.randint(1, 3), None]]
        kids = [k for k in kids if rng.random() < .5]
        out.append(['client %d.0.0.0 255.0.0.0' % i, kids or None])
    return out


def render_proxy(clients, rng=None):
    """Commands of all clients but the first are where its children are."""
    s = ['aaa server radius proxy']
    for i, (l, c) in enumerate(clients):
        s.append((' ' if i == 0 else '  ') + l)
        s += ['  ' + x for x, _ in c or []]
        s.append('  !' + ' ' * bool(rng and rng.random() < .2))
    return s
