"""C15: configs of two devices are combined only if their models agree."""
import copy

from lxml import etree
from ncdiff import Config, ConfigDelta
from ncdiff.config import ConfigCompatibility
from ncdiff.errors import ModelIncompatible, ModelMissing

from .. import device, schema, work
from ..gen import Gen
from ..refmodel import canon, normalise, Parser
from .c13 import mutate, norm

BATCHES = dict(quick=1200, thorough=20000)
RULE = ('two devices with the same models, with one to three changes in them, '
        'with another prefix or namespace of a module, or where a model is '
        'not loaded or not there x configs with data of some or all models x '
        'operators (difference, sum, sum with a delta, subtraction of a '
        'delta); key: both configs, kind of the second device, operator')
REQUIRED = {'same': 100, 'changed': 300, 'prefix': 100, 'ns': 100,
            'unloaded': 100, 'unknown': 50, 'accepted': 500, 'rejected': 1000,
            'accepted, other model differs': 100, 'incompatible': 500,
            'missing': 100}


class Side:
    def __init__(self, S, kind=None, name=None):
        self.S = S
        mods = [(x.ns, x.name) for x in S.mods]
        texts = schema.emit_schema(S)
        load = [n for _, n in mods]
        if kind == 'unloaded':
            load.remove(name)
        if kind == 'unknown':
            mods = [x for x in mods if x[1] != name]
            load.remove(name)
            for x in [x for x in texts if x == name or
                      x.startswith(name + '-')]:
                del texts[x]
        self.dev = device.make_device(device.write_yang(texts), mods, load)
        self.P = Parser(S)

    def model(self, name):
        return norm(self.dev.models[name].tree)


def batch(m, rng, index, tier):
    kind = rng.choice(['same', 'changed', 'changed', 'prefix', 'ns',
                       'unloaded', 'unknown'])
    S1 = schema.random_schema(rng, 'x%d' % index, dict(
        size=rng.choice([10, 20])))
    S2 = copy.deepcopy(S1)
    name = None
    if kind == 'changed':
        for _ in range(rng.choice([1, 1, 3])):
            mutate(rng, S2)
    elif kind != 'same':
        x = rng.choice([y for y in S2.mods if any(
            t.mod is y for t in S2.root.children)])
        if kind == 'unknown':
            x = S2.mods[-1]
        name = x.name
        if kind == 'prefix':
            x.prefix = x.prefix + 'z'
        elif kind == 'ns':
            def fix(v):
                if isinstance(v, list):
                    return [fix(y) for y in v]
                return ('id', x.ns + ':z', v[2]) if isinstance(
                    v, tuple) and v[1] == x.ns else v
            for c in S2.root.walk():
                c.default = fix(c.default)
            x.ns = x.ns + ':z'
    one = Side(S1)
    two = Side(S2, kind, name)
    for j in range(8):
        run(m, rng, one, two, kind, name)


def data(rng, side, bad=()):
    g = Gen(side.S, rng, density=rng.choice([.2, .4]))
    try:
        t = g.tree()
    except IndexError:      # nothing left that instance-identifiers name
        t = []
    if rng.random() < .6:
        keep = rng.sample([x.name for x in side.S.mods],
                          rng.randint(1, len(side.S.mods)))
        t = [k for k in t if k.s.mod.name in keep]
    t = [k for k in t if k.s.mod.name not in bad and not any(
        x.status for x in k.s.walk())]
    return t, Config(side.dev, g.render(t))


def run(m, rng, one, two, kind, name):
    A, ca = data(rng, one)
    bad = [name] if kind in ('unloaded', 'unknown') else []
    if kind == 'unknown':
        # (nodes of the missing module inside of others)
        two_s = one.S
        B, cb = [], Config(two.dev)
        del two_s
    else:
        B, cb = data(rng, two, bad)
    if rng.random() < .5:
        one, two, A, B, ca, cb = two, one, B, A, cb, ca
    models = {k.s.mod.name for k in normalise(A)} | \
        {k.s.mod.name for k in normalise(B)}
    if kind == 'ns' and name not in models:
        # (values may refer to identities in the other namespace)
        return
    names = set(ca.models) | set(cb.models)
    m.expect(names == models, 'wrong models', '%s, not %s' % (names, models),
             a=ca, b=cb, A=canon(A), B=canon(B))
    both = ConfigCompatibility(ca, cb).models
    m.expect(both == sorted(models) and ca.models == sorted(set(ca.models)),
             'models of both', '%s, not %s' % (both, sorted(models)))
    loaded = [set(x.dev.models_loaded) for x in (one, two)]
    if any(models - x for x in loaded):
        want = ModelMissing
    elif kind in ('prefix', 'ns') and name in models:
        want = ModelIncompatible
    elif any(one.model(x) != two.model(x) for x in models):
        want = ModelIncompatible
    else:
        want = None
    if kind == 'unknown' or kind in ('prefix', 'ns'):
        # which of the differences is found first does not matter
        want = want and (ModelMissing, ModelIncompatible)
    snap = [etree.tostring(c.ele) for c in (ca, cb)]
    # deltas within each device
    da = ca - Config(one.dev)
    ops = [('-', lambda: ca - cb), ('delta', lambda: ConfigDelta(ca, cb)),
           ('+', lambda: ca + cb), ('+ delta', lambda: cb + da),
           ('- delta', lambda: cb - (-da))]
    for op, f in ops:
        m.ev(kind)
        m.case(bool(A or B), (canon(A), canon(B), kind, op), lambda: dict(
            kind=kind, operator=op, a=str(ca)[:800], b=str(cb)[:800]))
        info = dict(a=ca, b=cb, device=kind, models=models, changed=name)
        w = want
        if op in ('+ delta', '- delta'):
            # models of the delta's configs matter
            pass
        try:
            r = f()
        except (ModelMissing, ModelIncompatible) as e:
            m.ev('rejected')
            m.ev('missing' if isinstance(e, ModelMissing) else
                 'incompatible')
            m.expect(w is not None and isinstance(e, w),
                     'wrong error' if w else 'compatible configs rejected',
                     '%s: %s' % (op, e), **info)
        except ValueError as e:
            # (values that refer to identities of a module that is missing)
            m.expect(kind == 'unknown' and 'not claimed' in str(e),
                     'unexpected ValueError', '%s: %s' % (op, e), **info)
        else:
            m.ev('accepted')
            if kind != 'same':
                m.ev('accepted, other model differs')
            if not m.expect(w is None, 'incompatible configs accepted', op,
                            **info):
                continue
            if kind == 'unknown':
                pass
            elif isinstance(r, ConfigDelta):
                src, dst = (cb, ca) if op == '-' else (ca, cb)
                m.expect(src + r == dst and dst - r == src,
                         'difference between devices', op, **info)
            elif op == '+':
                # as if both were of the same device
                x = Config(one.dev, etree.tostring(cb.ele).decode())
                m.expect(r == ca + x, 'sum of two devices', op, **info)
        m.expect([etree.tostring(c.ele) for c in (ca, cb)] == snap,
                 'operand changed', op)
    if want is None and kind != 'unknown':
        ka, kb = canon(A), canon(B)
        m.expect((ca == cb) == (ka == kb), 'equality between devices', '',
                 a=ca, b=cb)
