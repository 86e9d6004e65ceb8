"""C21: replies and notifications come back complete and usable."""
import ast
import contextlib
import io
import os
import random
import re
import sys
import threading
import time

from lxml import etree
from ncclient.operations import RPCError
from ncclient.operations.errors import TimeoutExpiredError
from ncclient.operations.rpc import RPCReply
from ncclient.transport.errors import SessionCloseError
from ncclient.transport.notify import Notification

from .. import device, env, work
from ..refmodel import canon, normalise
from ..wire import WireSession, NC, Drop, rpc_error

BATCHES = dict(quick=600, thorough=9000)
RULE = ('random replies (data, ok, errors and warnings, replies of other '
        'operations, notifications) spelled differently, with namespaces of '
        'known modules, of modules with the same prefix, unknown and no '
        'namespace; delivered to one caller or out of order to several '
        'threads, late, or not at all; key: the content of the reply')
REQUIRED = {'data': 800, 'ok': 100, 'error raised': 100, 'error kept': 100,
            'warning': 50, 'notification': 150, 'no notification': 50,
            'other reply': 150, 'unknown namespace': 400,
            'no namespace': 100, 'same prefix': 200, 'made up': 400,
            'like made up': 100, 'path': 20000, 'extracted': 400,
            'threads': 50, 'concurrent': 800, 'out of order': 150,
            'late': 20, 'lost': 10}
ASSUME = []

Q = '{%s}' % NC
FIXED = {NC: 'nc', 'urn:ietf:params:xml:ns:yang:1': 'yang',
         'http://tail-f.com/ns/netconf/params/1.1': 'tailf',
         'urn:ietf:params:xml:ns:netconf:notification:1.0': 'ncEvent'}
EVENT = 'urn:ietf:params:xml:ns:netconf:notification:1.0'
BASE = ['urn:ietf:params:netconf:base:1.0',
        'urn:ietf:params:netconf:capability:writable-running:1.0']
NCDIFF = os.path.join(env.SRC, 'ncdiff') + os.sep


class Session(WireSession):
    """Also sends notifications, when there are any."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.notes = []

    def take_notification(self, block, timeout):
        return Notification(self.notes.pop(0)) if self.notes else None


# modules whose prefixes look like others
TWINS = [('twin-a', 'rm', 'urn:twin:a'), ('twin-b', 'rm', 'urn:twin:b'),
         ('twin-c', 'ns00', 'urn:twin:c'), ('twin-d', 'ns02', 'urn:twin:d'),
         ('twin-e', 'nc', 'urn:twin:e'), ('twin-f', 'xmlx', 'urn:twin:f')]


class Link:
    def __init__(self, W, rng):
        self.W = W
        mods = [(x.ns, x.name) for x in W.S.mods]
        self.prefix = {x.ns: x.prefix for x in W.S.mods}
        if W.kind != 'real':
            twins = rng.sample(TWINS, rng.randint(0, 5))
            folder = env.newdir('twins')
            for f in os.listdir(W.dev.mon_folder):
                if f.endswith('.yang'):
                    with open(os.path.join(W.dev.mon_folder, f)) as h:
                        text = h.read()
                    with open(os.path.join(folder, f), 'w') as h:
                        h.write(text)
            device.write_yang({
                n: 'module %s { namespace "%s"; prefix %s; leaf %s-l '
                   '{ type string; } }' % (n, u, p, n)
                for n, p, u in twins}, folder)
            for n, p, u in twins:
                mods.append((u, n))
                self.prefix[u] = p
        else:
            folder = work.real_folder()
        self.folder, self.mods = folder, mods
        self.ses = Session(BASE + [device.cap(*x) for x in mods],
                           lambda op: self.body(op))
        self.dev = device.make_device(folder, mods, session=self.ses,
                                      load=list(W.dev.models_loaded))
        for u, p in self.dev_prefixes().items():
            self.prefix.setdefault(u, p)
        self.prefix.update(FIXED)
        self.alien = ['urn:alien:%d' % i for i in range(3)] + \
            ['http://alien.example/x?y', 'urn:alien']
        # and some that look like known ones
        for u in rng.sample(sorted(self.prefix), min(4, len(self.prefix))):
            v = rng.choice([u[:-1], u + 'x', u.upper(), u + ':sub',
                            re.split('[:/][^:/]*$', u)[0]])
            if v and v not in self.prefix:
                self.alien.append(v)

    def dev_prefixes(self):
        """Prefixes of all modules in the folder, read from the files."""
        out = {}
        for f in os.listdir(self.folder):
            if f.endswith('.yang'):
                with open(os.path.join(self.folder, f)) as h:
                    t = h.read()
                p = re.search(r'^\s*prefix\s+["\']?([\w.-]+)', t, re.M)
                u = re.search(r'^\s*namespace\s+["\']?([^"\'\s;]+)', t, re.M)
                if p and u:
                    out[u.group(1)] = p.group(1)
        return out

    def body(self, op):
        raise NotImplementedError


def setup(tier):
    work.rich()
    work.real()


_real = []


def link(W, rng):
    if W.kind != 'real':
        return Link(W, rng)
    if not _real:
        _real.append(Link(W, rng))
    return _real[0]


def info(e):
    kids = [c for c in e if isinstance(c.tag, str)]
    return (e.tag, None if kids else e.xpath('string()'),
            tuple(sorted(e.attrib.items())), tuple(info(c) for c in kids))


# --------------------------------------------------------------------------
# what a device says

def alien(rng, L, depth=0):
    """Elements that no model describes."""
    pool = L.alien + list(L.prefix) + ['']
    u = rng.choice(pool)
    at = ''
    p = rng.choice(['', '', 'p', 'q', 'ns00', 'ns01', 'rm'])
    if not u:
        p = ''
    at += ' xmlns%s="%s"' % (':' + p if p else '', u)
    if rng.random() < .4:
        v = rng.choice(L.alien + list(L.prefix))
        at += ' xmlns:att="%s" att:a%d="&lt;%d"' % (v, depth, depth)
    name = ('%s:' % p if p else '') + rng.choice(['bad-element', 'a', 'x-1'])
    kids = rng.choice([' text ', 'a&amp;b', '', '1'])
    if depth < 3 and rng.random() < .6:
        kids = ''.join(alien(rng, L, depth + 1)
                       for _ in range(rng.randint(1, 3)))
    return '<%s%s>%s</%s>' % (name, at, kids, name)


def error(rng, L, sev='error'):
    return ('<rpc-error><error-type>application</error-type><error-tag>'
            'invalid-value</error-tag><error-severity>%s</error-severity>'
            '<error-path%s>/a:b/c</error-path><error-message xml:lang="en">'
            'no %d</error-message><error-info>%s</error-info></rpc-error>' % (
                sev, rng.choice(['', ' xmlns:a="urn:path"', ' xmlns:a="%s"' %
                                 rng.choice(list(L.prefix))]),
                rng.randrange(1000),
                ''.join(alien(rng, L) for _ in range(rng.randint(0, 3)))))


# --------------------------------------------------------------------------
# monitors

def steps(rng, doc, ns):
    """(xpath with the prefixes of ns, element)"""
    inv = {u: p for p, u in ns.items()}

    def step(e):
        q = etree.QName(e)
        name = '%s:%s' % (inv[q.namespace], q.localname) if q.namespace else \
            q.localname
        par = e.getparent()
        i = 1 if par is None else \
            [x for x in par if x.tag == e.tag].index(e) + 1
        return '/%s[%d]' % (name, i)
    all_ = [e for e in doc.iter() if isinstance(e.tag, str)]
    for e in rng.sample(all_, min(len(all_), 12)):
        yield ''.join([step(x) for x in reversed(list(e.iterancestors()))] +
                      [step(e)]), e


def watch(m, rng, L, reply, raw, known=None):
    """The reply says what was sent, and can be searched."""
    doc = etree.fromstring(raw.encode())
    urls = {u for e in doc.iter() for u in e.nsmap.values() if u}
    pre = known or L.prefix
    ns = reply.ns
    data = dict(reply=raw, ns=repr(ns))
    if not m.expect(isinstance(ns, dict) and
                    sorted(ns.values()) == sorted(urls),
                    'namespaces of the reply', 'the reply uses %s' %
                    sorted(urls), **data):
        return
    if any(not n for e in doc.iter() if isinstance(e.tag, str)
           for n in [etree.QName(e).namespace]):
        m.ev('no namespace')
    want = {}
    for u in urls:
        want.setdefault(pre.get(u), set()).add(u)
    for p, us in want.items():
        if p is None:
            m.ev('unknown namespace')
            continue
        if len(us) > 1:
            m.ev('same prefix')
        if p in ('ns00', 'ns02'):
            m.ev('like made up')
        m.expect(ns.get(p) in us, 'prefix', 'prefix %s should be one of %s' %
                 (p, sorted(us)), **data)
    for p in ns:
        m.expect(isinstance(p, str) and re.fullmatch(r'[A-Za-z_][\w.-]*', p),
                 'not a prefix', repr(p), **data)
        if p not in want:
            m.ev('made up')
    for path, e in steps(rng, doc, ns):
        m.ev('path')
        got = reply.xpath(path)
        m.expect(len(got) == 1 and info(got[0]) == info(e) and
                 got[0].getroottree().getpath(got[0]) ==
                 e.getroottree().getpath(e), 'xpath', '%s finds %s' % (
                     path, got), **data)
    e = rng.choice([e for e in doc.iter() if isinstance(e.tag, str)])
    q = etree.QName(e)
    if q.namespace:
        path = '//my:' + q.localname
        m.expect(len(reply.xpath(path, namespaces={'my': q.namespace})) ==
                 len(doc.xpath(path, namespaces={'my': q.namespace})),
                 'xpath with other prefixes', path, **data)
    s = str(reply)
    try:
        back = etree.fromstring(s.encode())
    except etree.XMLSyntaxError as e:
        m.bad('str() is not XML', e, text=s, **data)
        return
    m.expect(info(strip(back)) == info(strip(doc)), 'str() is different', '',
             text=s, **data)
    repr(reply)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        reply.ns_help()
    m.expect(ast.literal_eval(out.getvalue()) == ns, 'ns_help()',
             out.getvalue(), **data)
    m.case(len(urls) > 1, (info(doc),), lambda: dict(reply=raw[:800]))


def strip(e):
    """Without the blank text between elements, comments ..."""
    for x in e.iter():
        if len(x):
            for y in [x.text] + [c.tail for c in x]:
                if y and y.strip():
                    break
            else:
                x.text = None
                for c in x:
                    c.tail = None
    return e


def ask(m, rng, L, f, body):
    """Calls f() while the device answers body; returns (reply, raw)."""
    L.body = lambda op: body
    r = f()
    mid = etree.fromstring(L.ses.sent[-1].encode()).get('message-id')
    return r, '<rpc-reply xmlns="%s" message-id="%s">%s</rpc-reply>' % (
        NC, mid, body)


def calls(rng, d):
    return rng.choice([
        lambda: d.edit_config('<config xmlns="%s"/>' % NC, target='running'),
        lambda: d.get(), lambda: d.get_config(source='running'),
        lambda: d.lock('running'), lambda: d.unlock('running'),
        lambda: d.dispatch(etree.Element('{urn:alien}do'))])


def single(m, rng, W, L):
    d = L.dev
    d.raise_mode = 0
    x = rng.random()
    if x < .45:
        g = work.gen(rng, W)
        kids = g.tree()
        more = '' if rng.random() < .5 else alien(rng, L)
        body = g.render(kids, root='dataonly')
        if more:
            i = body.rindex('</nc:data>')
            body = body[:i] + more + body[i:]
        f = rng.choice([d.get, lambda: d.get_config(source='running')])
        r, raw = ask(m, rng, L, f, body)
        m.ev('data')
        m.expect(r.ok, 'not ok', '', reply=raw)
        watch(m, rng, L, r, raw)
        if not more:
            m.ev('extracted')
            c = d.extract_config(r)
            m.expect(canon(W.P.config(c.ele)) == canon(normalise(kids)),
                     'extracted config', '', reply=raw, config=c)
            m.expect(r.xml == raw, 'reply modified', '', reply=raw)
    elif x < .5:
        r, raw = ask(m, rng, L, calls(rng, d) if rng.random() < .3 else
                     lambda: d.lock('running'), '<ok/>')
        m.ev('ok')
        m.expect(r.ok and r.error is None, 'not ok', '', reply=raw)
        watch(m, rng, L, r, raw)
    elif x < .65:
        body = ''.join(error(rng, L) for _ in range(rng.choice([1, 1, 2])))
        r, raw = ask(m, rng, L, calls(rng, d), body)
        m.ev('error kept')
        m.expect(not r.ok and r.error is not None and
                 r.error.tag == 'invalid-value', 'error is lost', '',
                 reply=raw)
        watch(m, rng, L, r, raw)
    elif x < .75:
        body = ''.join(error(rng, L) for _ in range(rng.choice([1, 1, 2])))
        d.raise_mode = rng.choice([1, 2])
        try:
            r, raw = ask(m, rng, L, calls(rng, d), body)
        except RPCError as e:
            m.ev('error raised')
            m.expect('no ' in str(e), 'wrong error', repr(e), body=body)
        else:
            m.bad('error not raised', repr(r), body=body)
    elif x < .8:
        d.raise_mode = 1
        r, raw = ask(m, rng, L, calls(rng, d), error(rng, L, 'warning'))
        m.ev('warning')
        watch(m, rng, L, r, raw)
    elif x < .9:
        r, raw = ask(m, rng, L,
                     lambda: d.dispatch(etree.Element('{urn:alien}do')),
                     ''.join(alien(rng, L) for _ in range(rng.randint(1, 3))))
        m.ev('other reply')
        m.expect(r.ok, 'not ok', '', reply=raw)
        watch(m, rng, L, r, raw)
    else:
        g = work.gen(rng, W)
        raws = []
        for _ in range(rng.randint(1, 3)):
            raws.append('<notification xmlns="%s"><eventTime>2020-01-01T00:00:'
                        '00Z</eventTime>%s</notification>' % (EVENT, rng.choice(
                            [alien(rng, L), g.render(g.tree(),
                                                     root='dataonly')])))
        L.ses.notes = list(raws)
        for raw in raws:
            m.ev('notification')
            n = d.take_notification(block=False)
            if not m.expect(n is not None and n.notification_xml == raw,
                            'notification', n, sent=raw):
                return
            watch(m, rng, L, n, raw)
        m.ev('no notification')
        m.expect(d.take_notification(block=True, timeout=.01) is None,
                 'a notification from nowhere', '')


# --------------------------------------------------------------------------
# several threads

def yielder(seed, p=.12):
    """Trace function that gives other threads a chance inside ncdiff."""
    rng = random.Random(seed)

    def local(frame, event, arg):
        if event == 'line' and rng.random() < p:
            time.sleep(rng.choice([0, 0, 0, 1e-5, 1e-4]))
        return local

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(NCDIFF):
            return local
        return None
    return tracer


def threads(m, rng, W, L):
    """A fresh device used by several threads at once."""
    bodies = {}
    served = []
    lock = threading.Lock()
    broken = [None]

    def serve(op):
        mark = op.get('mark')
        with lock:
            served.append(mark)
            if broken[0] is not None and len(served) >= broken[0]:
                raise Drop
        return bodies[mark]
    ses = Session(BASE + [device.cap(*x) for x in L.mods], serve,
                  seed=rng.random(), delay=.004)
    d = device.make_device(L.folder, L.mods, load=list(W.dev.models_loaded),
                           session=ses)
    d.raise_mode = 0
    mode = rng.random()
    drop = mode < .12
    slow = .12 <= mode < .3
    d.timeout = .004 if slow else 30
    n = rng.randint(2, 5)
    per = rng.randint(3, 6)
    plan = []
    for t in range(n):
        todo = []
        for i in range(per):
            mark = '%d.%d' % (t, i)
            g = work.gen(rng, W)
            kids = None
            if rng.random() < .3:
                bodies[mark] = error(rng, L).replace(
                    '<error-info>', '<error-info><mark>%s</mark>' % mark)
            else:
                kids = g.tree()
                bodies[mark] = g.render(kids, root='dataonly')
            todo.append((mark, kids))
        plan.append(todo)
    if drop:
        broken[0] = rng.randint(1, n * per)
    out = []
    seeds = [rng.random() for _ in range(n)]
    gate = threading.Barrier(n)

    def work_(t):
        gate.wait()
        sys.settrace(yielder(seeds[t]))
        try:
            for mark, kids in plan[t]:
                start = time.time()
                try:
                    r = d.dispatch(etree.Element('{urn:alien}do', mark=mark))
                except (TimeoutExpiredError, SessionCloseError) as e:
                    out.append((mark, kids, e))
                except Exception as e:
                    out.append((mark, kids, e))
                else:
                    c = None
                    if kids is not None:
                        try:
                            c = d.extract_config(r)
                        except Exception as e:
                            c = e
                    out.append((mark, kids, r, c))
        finally:
            sys.settrace(None)
    ts = [threading.Thread(target=work_, args=(t,), daemon=True)
          for t in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    m.ev('threads', n)
    if not m.expect(not any(t.is_alive() for t in ts), 'a caller waits for '
                    'ever', ''):
        return
    mids = {}
    for s in ses.sent:
        e = etree.fromstring(s.encode())
        m.expect(e.get('message-id') not in mids.values(),
                 'message-id used twice', e.get('message-id'))
        mids[e[0].get('mark')] = e.get('message-id')
    order = [x[1] for x in ses.log if x[0] == '>']
    back = [x[1] for x in ses.log if x[0] == '<']
    m.ev('out of order', sum(1 for i, x in enumerate(back[:-1])
                             if order.index(x) > order.index(back[i + 1])))
    for o in out:
        mark, kids, r = o[:3]
        if isinstance(r, TimeoutExpiredError):
            m.ev('late')
            m.expect(slow, 'timed out', mark)
            continue
        if isinstance(r, SessionCloseError):
            m.ev('lost')
            m.expect(drop, 'connection lost', repr(r))
            continue
        if isinstance(r, Exception):
            m.bad('call failed', repr(r), mark=mark)
            continue
        m.ev('concurrent')
        raw = '<rpc-reply xmlns="%s" message-id="%s">%s</rpc-reply>' % (
            NC, mids[mark], bodies[mark])
        if not m.expect(r.xml == raw, 'reply of another request', mark,
                        reply=r.xml, expected=raw):
            continue
        watch(m, rng, L, r, raw)
        if kids is not None:
            c = o[3]
            if isinstance(c, Exception):
                m.bad('extract_config failed', repr(c), reply=raw)
                continue
            m.ev('extracted')
            m.expect(canon(W.P.config(c.ele)) == canon(normalise(kids)),
                     'extracted config', '', reply=raw, config=c)
    for t in ses.threads:
        t.join(5)


def batch(m, rng, index, tier):
    W = work.world(rng, 'p%d' % index, dict(size=14), p_rich=.35, p_real=.05)
    L = link(W, rng)
    for j in range(10):
        single(m, rng, W, L)
    if W.kind != 'real' and index % 2:
        threads(m, rng, W, L)
