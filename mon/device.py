"""Real ncdiff ModelDevice objects on top of a fake ncclient session."""
import logging
import os
import zlib

from . import env

env.check_import()
logging.disable(logging.CRITICAL)

from ncclient.devices.default import DefaultDeviceHandler  # noqa: E402
from ncdiff.manager import ModelDevice                     # noqa: E402


class FakeSession:
    """Session that never talks; only capabilities matter."""

    def __init__(self, caps):
        self._caps = list(caps)
        self.id = '1'

    @property
    def server_capabilities(self):
        return self._caps
    _server_capabilities = server_capabilities
    client_capabilities = ()
    connected = True
    session_id = '1'

    def connect(self, *a, **k):
        pass

    def close(self):
        pass

    def send(self, msg):
        raise RuntimeError('unexpected send: %s' % msg)

    def get_listener_instance(self, cls):
        return None

    def add_listener(self, listener):
        pass

    def remove_listener(self, listener):
        pass

    def is_alive(self):
        return True


BASE_CAPS = ['urn:ietf:params:netconf:base:1.0',
             'urn:ietf:params:netconf:capability:writable-running:1.0']


def cap(ns, name, rev='2020-01-01'):
    # parameters come in any order
    return ns + [
        '?module=%s&revision=%s', '?revision=%s&module=%s',
        '?module=%s&revision=%s&features=a,b', '?features=m&revision=%s&module=%s'
    ][zlib.crc32(name.encode()) % 4].replace('revision=%s', 'revision=' + rev) \
        % name


def make_device(folder, mods, load=None, session=None):
    """ModelDevice that knows the modules `mods` [(ns, name)] whose YANG files
    are in `folder` (a scratch directory)."""
    caps = BASE_CAPS + [cap(ns, name) for ns, name in mods]
    s = session or FakeSession(caps)
    d = ModelDevice(s, DefaultDeviceHandler())
    d.scan_models(folder=folder, download='ignore')
    for m in (load if load is not None else [n for _, n in mods]):
        d.load_model(m)
    return d


def write_yang(texts, folder=None):
    folder = folder or env.newdir('yang')
    for name, text in texts.items():
        with open(os.path.join(folder, name + '.yang'), 'w',
                  encoding='utf-8') as f:
            f.write(text)
    return folder


def device_for(schema, texts=None, folder=None):
    from .schema import emit_schema
    folder = write_yang(texts or emit_schema(schema), folder)
    d = make_device(folder, [(m.ns, m.name) for m in schema.mods])
    d.mon_folder = folder
    return d
