"""A NETCONF server behind a fake ncclient session.

The session records every message; replies are delivered by server threads
after (seeded) delays, possibly out of order, as errors, or not at all."""
import random
import threading
import time

from lxml import etree

from ncclient.operations.errors import OperationError
from ncclient.transport.errors import SessionCloseError

NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
MON = 'urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring'
LIB = 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
LIBCAP = 'urn:ietf:params:netconf:capability:yang-library:1.0'


class Drop(Exception):
    """The connection breaks while this request is being served."""


def rpc_error(tag='operation-failed', msg='no'):
    return ('<rpc-error><error-type>application</error-type><error-tag>%s'
            '</error-tag><error-severity>error</error-severity>'
            '<error-message>%s</error-message></rpc-error>' % (tag, msg))


class WireSession:
    """serve(op element) -> content of rpc-reply (text); raises Drop."""

    def __init__(self, caps, serve, seed=None, delay=0.0, on_send=None):
        self._caps = list(caps)
        self.serve = serve
        self.sent = []                  # (message text)
        self.log = []                   # ('>'|'<'|'!', message id, op)
        self.delay = delay
        self.rng = random.Random(seed)
        self.listeners = []
        self.lock = threading.Lock()
        self.on_send = on_send
        self.id = '1'
        self.threads = []
        self.inflight = 0
        self.max_inflight = 0
        self.broken = False

    @property
    def server_capabilities(self):
        return self._caps
    _server_capabilities = server_capabilities
    client_capabilities = ()
    session_id = '1'

    @property
    def connected(self):
        return not self.broken

    def connect(self, *a, **k):
        pass

    def close(self):
        pass

    def is_alive(self):
        return True

    def get_listener_instance(self, cls):
        for x in self.listeners:
            if isinstance(x, cls):
                return x

    def add_listener(self, x):
        with self.lock:
            self.listeners.append(x)

    def remove_listener(self, x):
        with self.lock:
            if x in self.listeners:
                self.listeners.remove(x)

    def send(self, message):
        if self.broken:
            raise SessionCloseError('session is closed')
        root = etree.fromstring(message.encode() if isinstance(message, str)
                                else message)
        op = root[0]
        mid = root.get('message-id')
        if self.on_send:
            self.on_send(op)
        with self.lock:
            self.sent.append(message)
            self.log.append(('>', mid, etree.QName(op).localname))
            self.inflight += 1
            self.max_inflight = max(self.max_inflight, self.inflight)
            d = self.rng.random() * self.delay if self.delay else 0
            many = self.rng.random() < .1
        if many:
            d *= 4
        if self.delay:
            t = threading.Thread(target=self._answer, args=(root, op, mid, d),
                                 daemon=True)
            self.threads.append(t)
            t.start()
        else:
            self._answer(root, op, mid, 0)

    def _answer(self, root, op, mid, d):
        if d:
            time.sleep(d)
        try:
            body = self.serve(op)
        except Drop:
            with self.lock:
                self.broken = True
                self.inflight -= 1
                self.log.append(('!', mid, ''))
            for x in list(self.listeners):
                while True:
                    try:
                        x.errback(SessionCloseError('connection lost'))
                        break
                    except RuntimeError:    # ncclient: requests being added
                        time.sleep(.001)
            return
        raw = '<rpc-reply xmlns="%s" message-id="%s">%s</rpc-reply>' % (
            NC, mid, body)
        with self.lock:
            self.inflight -= 1
            self.log.append(('<', mid, ''))
        if self.broken:
            return
        for x in list(self.listeners):
            try:
                x.callback(('{%s}rpc-reply' % NC, {'message-id': mid}), raw)
            except (OperationError, KeyError):  # nobody waits any more
                pass
