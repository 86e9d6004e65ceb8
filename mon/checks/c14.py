"""C14: scanning a device gets all its models, whatever happened before."""
import os
import re
import shutil
import sys
import threading
import time
from xml.sax.saxutils import escape

from lxml import etree
from ncclient.devices.default import DefaultDeviceHandler
from ncdiff.manager import ModelDevice
from ncdiff.model import ModelCompiler

from .. import env, device                                  # noqa: F401
from ..wire import WireSession, Drop, rpc_error, NC, MON, LIB, LIBCAP
from .c12 import c14n

BATCHES = dict(quick=180, thorough=3000)
LEVEL = 'fault_enumeration'
BATCH_LIMIT = 200
RULE = ('random sets of modules (imports and includes that are announced or '
        'not, refused, empty or unparsable ones) x way of announcing them x '
        'state of the folder (empty, complete, of another device, torn) x '
        'fault (process killed at each file operation or request, connection '
        'lost or silent at each request) x delays of replies; key: modules, '
        'discovery, scenario and fault point')
ASSUME = ['the device answers get-schema for all models or refuses some of '
          'them consistently',
          'kills are simulated at file operations, requests, and torn files']
REQUIRED = {'scan': 300, 'skip': 60, 'redownload': 30, 'kill': 150,
            'lost': 60, 'silent': 10, 'torn': 60, 'ignore': 30,
            'mon': 15, 'lib': 15, 'caps': 15, 'parallel': 20,
            'undecodable': 5, 'not announced': 50, 'refused': 50,
            'caps drop': 5, 'caps add': 5, 'caps replace': 5,
            'caps reordered': 20}


class Site:
    """A device: its modules and what it announces."""

    def __init__(self, rng, tag, like=None):
        self.rng = rng
        n = rng.randint(2, 7)
        self.text, self.deps, self.kind = {}, {}, {}
        self.ns, self.prefix, self.leaf = {}, {}, {}
        names = []
        for i in range(n):
            name = 'm%d%s%s' % (i, rng.choice(['-', '_', '.', 'A-']), tag)
            names.append(name)
        self.mods = names
        self.subs = []
        unknown = []
        for i, name in enumerate(names):
            imp = [x for x in names[:i] if rng.random() < .4]
            if rng.random() < .15:
                u = 'nowhere%d-%s' % (i, tag)
                unknown.append(u)
                imp.append(u)
            inc = []
            if rng.random() < .3:
                s = '%s-sub' % name
                inc.append(s)
                self.subs.append(s)
                simp = [x for x in names[:i] if rng.random() < .3]
                self.deps[s] = set(simp)
                self.leaf[s] = 's%d' % rng.randint(0, 999)
                self.text[s] = (
                    'submodule %s {\n belongs-to %s { prefix "pp"; }\n%s'
                    ' revision 2020-01-01;\n'
                    ' leaf %s { type string; }\n}\n' % (
                        s, name, ''.join(
                            ' import %s { prefix "i%d"; }\n' % (x, j)
                            for j, x in enumerate(simp)), self.leaf[s]))
            self.deps[name] = set(imp) | set(inc)
            self.ns[name] = 'urn:%s:%d' % (tag, i)
            self.prefix[name] = 'p%d' % i
            self.leaf[name] = 'l%d' % rng.randint(0, 999)
            eol = rng.choice(['\n', '\n', '\n', '\r\n'])
            aug = [(j, x) for j, x in enumerate(imp) if x in self.ns]
            t = 'module %s {\n namespace "%s";\n prefix %s;\n' % (
                name, self.ns[name], self.prefix[name])
            for j, x in enumerate(imp):
                t += ' import %s { prefix "i%d"; }\n' % (x, j)
            for x in inc:
                t += ' include %s;\n' % x
            t += ' description "\u00e9\u4e2d <&> ]]\u00a0%d";\n' % rng.randint(0, 9)
            t += ' revision 20%02d-01-01;\n' % rng.randint(10, 24)
            t += ' container c%d {\n  leaf %s { type string; }\n }\n' % (
                i, self.leaf[name])
            if aug and rng.random() < .5:
                j, x = rng.choice(aug)
                t += ' augment "/i%d:c%d" { leaf a%d { type string; } }\n' % (
                    j, names.index(x), i)
            t += '}\n'
            self.text[name] = t.replace('\n', eol)
            if rng.random() < .08:
                self.kind[name] = 'broken'
                self.text[name] = t.rstrip()[:-1]
            elif rng.random() < .08:
                self.kind[name] = 'refused'
            elif rng.random() < .04:
                self.kind[name] = 'empty'
        self.unknown = unknown
        self.announced = [x for x in names if rng.random() < .7] or names[:1]
        if rng.random() < .2:
            self.announced.append('not-there-' + tag)
        self.how = rng.choice(['caps', 'mon', 'lib', 'mon+lib'])
        self.fail = set()
        if self.how != 'caps' and rng.random() < .25:
            self.fail = set(rng.choice([['mon'], ['mon', 'lib']]))
        self.listsubs = rng.random() < .5

    def caps(self, extra=()):
        c = ['urn:ietf:params:netconf:base:1.0',
             'urn:ietf:params:netconf:capability:candidate:1.0']
        if 'mon' in self.how:
            c.append(MON + '?revision=2010-10-04')
        if 'lib' in self.how:
            c.append(LIBCAP + '?revision=2016-04-09&module-set-id=7')
        if self.how == 'caps' or self.fail or self.extra_caps:
            for i, x in enumerate(self.announced):
                c.append('%s?%s' % (
                    self.ns.get(x, 'urn:q'),
                    ['module=%s&revision=2020-01-01', 'module=%s',
                     'module=%s&features=a,b&deviations=d',
                     'revision=2020-01-01&module=%s&deviations=d'
                     ][i % 4] % x))
        return c + list(extra)
    extra_caps = False

    def closure(self):
        """(names of files, names that are parsed)"""
        todo, seen = list(self.loadable()), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.text and self.kind.get(x) is None:
                todo += self.deps[x]
        files = {x for x in seen if x in self.text and
                 self.kind.get(x) in (None, 'broken')}
        return seen, files

    def schema_answer(self, op):
        name = op.findtext('{%s}identifier' % MON)
        t = self.text.get(name)
        if t is None or self.kind.get(name) == 'refused':
            return rpc_error('invalid-value')
        if self.kind.get(name) == 'empty':
            return '<data xmlns="%s"/>' % MON
        return '<data xmlns="%s">%s</data>' % (
            MON, escape(t).replace('\r', '&#13;'))

    def get_answer(self, op):
        s = etree.tostring(op).decode()
        if MON in s:
            if 'mon' in self.fail:
                return rpc_error()
            names = self.announced + (self.subs if self.listsubs else [])
            return ('<data><netconf-state xmlns="%s"><schemas>%s</schemas>'
                    '</netconf-state></data>' % (MON, ''.join(
                        '<schema><identifier>%s</identifier><version/>'
                        '<format>yang</format><namespace>%s</namespace>'
                        '</schema>' % (x, self.ns.get(x, 'u'))
                        for x in names)))
        if LIB in s:
            if 'lib' in self.fail:
                return rpc_error()
            return ('<data><modules-state xmlns="%s">%s</modules-state>'
                    '</data>' % (LIB, ''.join(
                        '<module><name>%s</name><revision/><namespace>%s'
                        '</namespace><submodule><name>%s-sub</name><revision/>'
                        '</submodule></module>' % (x, self.ns.get(x, 'u'), x)
                        for x in self.announced)))
        return rpc_error()

    def loadable(self):
        if 'mon' in self.how and 'mon' not in self.fail and self.listsubs:
            return set(self.announced) | set(self.subs)
        return set(self.announced)

    def serve(self, op):
        if etree.QName(op).localname == 'get-schema':
            return self.schema_answer(op)
        return self.get_answer(op)


def settle():
    """Waits until the threads of the last scan are gone."""
    end = time.time() + 5
    while time.time() < end:
        if threading.active_count() == 1:
            return
        time.sleep(.002)


def connect(site, seed, delay=0, serve=None, on_send=None, extra=(),
            shuffle=None):
    caps = site.caps(extra)
    if shuffle is not None:
        shuffle.shuffle(caps)
    s = WireSession(caps, serve or site.serve, seed=seed,
                    delay=delay, on_send=on_send)
    d = ModelDevice(s, DefaultDeviceHandler())
    d.timeout = 20
    return d, s


def asked(session):
    r = []
    for msg in session.sent:
        x = re.findall(r'identifier[^>]*>([^<]+)<', msg)
        if 'get-schema' in msg:
            r += x
    return r


def want_files(site):
    return site.closure()[1]


def state_of(folder):
    r = {}
    for root, dirs, files in os.walk(folder):
        for f in files:
            with open(os.path.join(root, f), 'rb') as fh:
                r[os.path.relpath(os.path.join(root, f), folder)] = fh.read()
    return r


def reference(site, cache):
    """Models compiled from files written by hand."""
    if cache:
        return cache
    folder = env.newdir('ref')
    for x in want_files(site):
        with open(os.path.join(folder, x + '.yang'), 'wb') as f:
            f.write(site.text[x].encode())
    comp = ModelCompiler(folder)
    for x in sorted(want_files(site)):
        if x in site.mods and site.kind.get(x) is None:
            cache[x] = compiled(comp, x)
    settle()
    cache[''] = None
    return cache


def unordered(x):
    # (augments of several modules come in any order)
    return (x[0], x[1], sorted(unordered(y) for y in x[2]))


def compiled(comp, name):
    try:
        return unordered(c14n(comp.compile(name).tree))
    except Exception as e:
        return type(e).__name__


def complete(m, site, folder, dev, what, cache, ctx, models=True):
    """The folder and the device are as the modules of the site demand."""
    ctx = '%s %s' % (ctx, what)
    files = want_files(site)
    st = state_of(folder)
    got = {f[:-5] for f in st if f.endswith('.yang') and not (
        site.kind.get(f[:-5]) == 'empty' and not st[f])}
    if not m.expect(got == files, 'wrong set of YANG files',
                    lambda: '%s: missing %s, superfluous %s' % (
                        ctx, sorted(files - got), sorted(got - files))):
        return False
    for x in files:
        m.expect(st[x + '.yang'] == site.text[x].encode(),
                 'wrong content of a YANG file', ctx + ' ' + x)
    ns = sorted((x, site.prefix[x], site.ns[x]) for x in files
                if x in site.mods and site.kind.get(x) is None)
    m.expect(sorted(dev.namespaces) == ns, 'wrong namespaces',
             lambda: '%s: %s, not %s' % (ctx, sorted(dev.namespaces), ns))
    if models:
        ref = reference(site, cache)
        for x in [n for n, _, _ in ns]:
            c = compiled(dev.compiler, x)
            m.expect(c == ref[x], 'wrong model after a scan', ctx + ' ' + x,
                     got=c, want=ref[x])
            m.ev('model')
        # as users load them
        for x in sorted(site.loadable() & set(ref) - {''}):
            if not isinstance(ref[x], str):
                dev.load_model(x)
                m.expect(x in dev.models_loaded, 'model not loaded', x)
    return True


def batch(m, rng, index, tier):
    site = Site(rng, 't%d' % index)
    seen, files = site.closure()
    while not any(site.kind.get(x) is None for x in files):
        site = Site(rng, 't%d' % index)
        seen, files = site.closure()
    site.extra_caps = rng.random() < .5
    m.ev('+'.join(sorted(site.how.split('+'))))
    m.ev(site.how) if '+' not in site.how else None
    m.ev('not announced', len(files - set(site.announced)))
    m.ev('refused', len(seen - files))
    cache = {}
    folder = os.path.join(env.newdir('c14'), 'y')
    key = tuple(sorted(site.text.items())), site.how, tuple(site.announced)
    sys.setswitchinterval(rng.choice([.005, 1e-4, 1e-6]))
    try:
        run(m, rng, site, folder, cache, key, tier)
    finally:
        sys.setswitchinterval(.005)


def scan(m, dev, session, folder, mode, key, tag):
    dev.scan_models(folder=folder, download=mode)
    settle()
    m.case(True, (key, tag), lambda: dict(
        modules=sorted(key[0][i][0] for i in range(len(key[0]))),
        discovery=key[1], announced=key[2], scan=str(tag),
        asked=asked(session)))
    m.ev('scan')
    if session.max_inflight > 1:
        m.ev('parallel')


def run(m, rng, site, folder, cache, key, tier):
    delay = rng.choice([0, 0, .002, .01])
    files = want_files(site)

    # a device that was never seen
    # (it may have capabilities that are gone later, when it has changed)
    extra = ['urn:x%d?module=%s&revision=2020-01-0%d&features=a,b' % (
        i, rng.choice(site.announced), i + 1)
        for i in range(rng.choice([0, 1, 2, 3]))]
    dev, s = connect(site, rng.random(), delay, extra=extra)
    if rng.random() < .5:
        os.makedirs(folder)
        if rng.random() < .5:
            for f in ['old.yang', 'old.xml', 'dependencies.xml']:
                with open(os.path.join(folder, f), 'w') as fh:
                    fh.write('module old { namespace "urn:old"; prefix old; }')
    m.expect(set(dev.models_loadable) == site.loadable(),
             'wrong loadable models', lambda: '%s, not %s' % (
                 dev.models_loadable, sorted(site.loadable())))
    mode = rng.choice(['check', 'check', 'force'])
    scan(m, dev, s, folder, mode, key, 'first')
    if not complete(m, site, folder, dev, 'first', cache, mode):
        return
    m.expect(set(asked(s)) <= site.closure()[0] | site.loadable(),
             'schema that nobody needs was requested', str(asked(s)))

    # again: nothing changed
    # (capabilities are a set: they come in any order)
    dev2, s2 = connect(site, rng.random(), delay, extra=extra, shuffle=rng)
    m.ev('caps reordered')
    before = state_of(folder)
    scan(m, dev2, s2, folder, 'check', key, 'again')
    m.expect(not asked(s2), 'download although nothing changed',
             str(asked(s2)))
    m.ev('skip')
    after = state_of(folder)
    m.expect(before == after, 'files changed although nothing was downloaded',
             lambda: str([f for f in set(before) | set(after)
                          if before.get(f) != after.get(f)]))
    complete(m, site, folder, dev2, 'again', cache, 'check')

    # work on existing files
    if rng.random() < .5:
        dev3, s3 = connect(site, rng.random(), delay, extra=extra)
        for f in os.listdir(folder):
            if f.endswith('.xml') and rng.random() < .7:
                os.remove(os.path.join(folder, f))
        if rng.random() < .5 and 'capabilities.txt' in after:
            os.remove(os.path.join(folder, 'capabilities.txt'))
        scan(m, dev3, s3, folder, 'ignore', key, 'ignore')
        m.expect(not s3.sent, 'ignore must not talk to the device',
                 str(s3.sent[:1]))
        m.ev('ignore')
        complete(m, site, folder, dev3, 'ignore', cache, 'ignore')
        if rng.random() < .3:
            undecodable(m, rng, site, cache, key)

    # the same device object, another folder and back
    if rng.random() < .4:
        other = Site(rng, 'o%d' % rng.randint(0, 99))
        while not any(other.kind.get(x) is None for x in want_files(other)):
            other = Site(rng, 'o%d' % rng.randint(0, 99))
        g = env.newdir('c14o')
        for x in want_files(other):
            with open(os.path.join(g, x + '.yang'), 'wb') as f:
                f.write(other.text[x].encode())
        dev2.scan_models(folder=g, download='ignore')
        settle()
        complete(m, other, g, dev2, 'other folder', {}, 'ignore', False)

    # the device has changed
    if rng.random() < .6:
        for x in rng.sample(sorted(site.text), k=1):
            site.text[x] = site.text[x].replace('type string', 'type int8')
        cache.clear()
        how = rng.choice(['add', 'drop', 'replace', 'force'])
        if not extra:
            how = 'force' if how == 'force' else 'add'
        if how == 'add':
            extra = extra + ['urn:new?module=%s' % rng.choice(site.announced)]
        elif how == 'drop':
            extra.remove(rng.choice(extra))
        elif how == 'replace':
            i = rng.randrange(len(extra))
            extra[i] = rng.choice([
                extra[i] + ',c', extra[i][:-2],
                extra[i].replace('2020', '2021')])
        m.ev('caps ' + how)
        dev4, s4 = connect(site, rng.random(), delay, extra=extra)
        with open(os.path.join(folder, 'stale.xml'), 'w') as f:
            f.write('<stale/>')
        scan(m, dev4, s4, folder, 'force' if how == 'force' else 'check',
             key, 'changed')
        m.ev('redownload')
        m.expect(set(asked(s4)) >= set(site.announced),
                 'device changed, but not all was downloaded')
        complete(m, site, folder, dev4, 'changed', cache, how)
        m.expect(not os.path.exists(os.path.join(folder, 'stale.xml')),
                 'stale file left')

    faults(m, rng, site, folder, cache, key, tier)


def undecodable(m, rng, site, cache, key):
    folder = env.newdir('c14u')
    for x in want_files(site):
        with open(os.path.join(folder, x + '.yang'), 'wb') as f:
            f.write(site.text[x].encode())
    with open(os.path.join(folder, 'zz-bad.yang'), 'wb') as f:
        f.write(b'module zz-bad { description "\xe9\xff"; }')
    done = []

    def go():
        d, s = connect(site, 1)
        d.scan_models(folder=folder, download='ignore')
        done.append(d)
    t = threading.Thread(target=go, daemon=True)
    t.start()
    t.join(20)
    m.case(True, (key, 'undecodable'))
    m.ev('undecodable')
    if m.expect(done, 'scan does not end',
                'a file that is not UTF-8 is in the folder'):
        settle()
        os.remove(os.path.join(folder, 'zz-bad.yang'))
        complete(m, site, folder, done[0], 'undecodable', cache, 'ignore')


def faults(m, rng, site, folder, cache, key, tier):
    start = rng.choice(['empty', 'complete', 'complete', 'other'])
    mode = 'force' if start == 'complete' else rng.choice(['check', 'force'])
    base = env.newdir('c14f')
    kw = {}

    def prepare(tag):
        f = os.path.join(base, tag)
        if os.path.isdir(f):
            shutil.rmtree(f)
        if start == 'empty':
            return f
        shutil.copytree(full, f)
        if start == 'other':
            with open(os.path.join(f, 'capabilities.txt'), 'a') as fh:
                fh.write('\nurn:x')
        return f

    full = os.path.join(base, 'full')
    d, s = connect(site, 0)
    d.scan_models(folder=full, download='check')
    settle()
    for x in site.mods:
        if x in want_files(site):
            compiled(d.compiler, x)

    def recover(f, tag, what):
        d, s = connect(site, rng.random())
        scan(m, d, s, f, 'check', key, tag)
        complete(m, site, f, d, 'recovered', cache, what,
                 models=rng.random() < .3)

    # killed at each file operation and at each request
    k, n = 0, None
    limit = 60 if tier == 'quick' else 400
    while k < limit:
        f = prepare('kill')
        k += 1
        settle()
        pid = os.fork()
        if pid == 0:
            try:
                child(site, f, mode, k)
            finally:
                os._exit(3)
        _, st = os.waitpid(pid, 0)
        code = os.waitstatus_to_exitcode(st)
        if code == 3:
            m.bad('scan failed in a process that was to be killed', str(k))
            return
        m.ev('kill')
        tag = ('kill', start, mode, k)
        if rng.random() < .4:
            tear(m, rng, f)
        if not m.viol:
            recover(f, tag, 'after a kill at step %d (%s, %s)' % (
                k, start, mode))
        if code == 0:
            break

    # torn files after an orderly end
    for i in range(2):
        f = os.path.join(base, 'torn')
        if os.path.isdir(f):
            shutil.rmtree(f)
        shutil.copytree(full, f)
        name = rng.choice(['dependencies.xml', 'capabilities.txt'] + [
            x for x in os.listdir(f) if x.endswith('.xml')])
        p = os.path.join(f, name)
        size = os.path.getsize(p)
        cut = rng.choice([0, rng.randint(0, size - 2), size - 2])
        if name == 'dependencies.xml' and rng.random() < .2:
            os.remove(p)
        else:
            os.truncate(p, cut)
        m.ev('torn')
        recover(f, ('torn', name, cut), 'after %s was cut to %d bytes' % (
            name, cut))

    # connection lost, or silent, at each request
    nreq = len(s.sent)
    points = list(range(1, nreq + 1))
    if tier == 'quick' and len(points) > 6:
        points = sorted(rng.sample(points, 6))
    for j in points:
        f = prepare('lost')
        # (a discovery without answer falls back to capabilities)
        silent = rng.random() < .15 and (j > 1 or site.how == 'caps')
        count = [0]
        lock = threading.Lock()

        def serve(op):
            with lock:
                count[0] += 1
                c = count[0]
            if c == j:
                if silent:
                    time.sleep(.4)
                    return rpc_error()
                raise Drop()
            return site.serve(op)
        d, s = connect(site, rng.random(), .0005 if silent else
                       rng.choice([0, .001]), serve=serve)
        if silent:
            d.timeout = .15
        try:
            d.scan_models(folder=f, download=mode)
        except Exception:
            m.ev('scan raised')
        m.ev('silent' if silent else 'lost')
        for t in s.threads:
            t.join(5)
        settle()
        if not m.viol:
            recover(f, ('lost', start, mode, j, silent),
                    'after the connection was %s at request %d of %d (%s, '
                    '%s)' % ('silent' if silent else 'lost', j, nreq, start,
                             mode))


def tear(m, rng, folder):
    """The file written last had not reached the disk completely."""
    fs = [os.path.join(folder, x) for x in os.listdir(folder)] \
        if os.path.isdir(folder) else []
    if fs:
        p = max(fs, key=os.path.getmtime)
        if os.path.basename(p) != 'capabilities.txt':
            os.truncate(p, rng.randint(0, max(0, os.path.getsize(p) - 2)))
            m.ev('torn')


def child(site, folder, mode, k):
    """Scans in a process that dies at step k."""
    n = [0]
    lock = threading.Lock()

    def step():
        with lock:
            n[0] += 1
            if n[0] == k:
                os._exit(9)
    real = os.path.abspath(folder)

    def hook(event, args):
        if event == 'open' and isinstance(args[0], str) and \
                args[0].startswith(real) and isinstance(args[1], str) and \
                set(args[1]) & set('wax+'):
            step()
        elif event in ('os.remove', 'os.rename') and \
                str(args[0]).startswith(real):
            step()
    d, s = connect(site, 0, on_send=lambda op: step())
    sys.addaudithook(hook)
    d.scan_models(folder=folder, download=mode)
    os._exit(0)
