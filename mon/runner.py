"""Runs one check: batches of workload in worker processes, each of them
watched by a Monitor that records events and decides violations.

  python -m mon.runner C01            tier and seed from the environment
  python -m mon.runner C01 --replay FILE
  python -m mon.runner C01 --batch N  one batch, verbosely
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from collections import Counter

from . import env

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')


class Hang(BaseException):
    pass


def digest(*xs):
    h = hashlib.blake2b(digest_size=8)
    for x in xs:
        h.update(x if isinstance(x, bytes) else repr(x).encode())
        h.update(b'\0')
    return h.hexdigest()


class Monitor:
    """Collects what was observed in one batch."""

    def __init__(self, prop, seed, index, verbose=False):
        self.prop, self.seed, self.index = prop, seed, index
        self.evals = 0
        self.events = Counter()
        self.seen = set()
        self.samples = []
        self.viol = []
        self.verbose = verbose
        self.where = ''

    def case(self, nontrivial, key, sample=None):
        """One evaluation; key identifies it among all evaluations."""
        self.evals += 1
        if nontrivial:
            h = digest(key)
            if h not in self.seen:
                self.seen.add(h)
                if sample is not None and len(self.samples) < 2:
                    self.samples.append(sample() if callable(sample)
                                        else sample)

    def ev(self, name, n=1):
        self.events[name] += n

    def bad(self, kind, detail='', **data):
        """A violation of the property."""
        if self.verbose:
            print('VIOLATION', kind, '::', detail)
            for k, v in data.items():
                print('---- %s:\n%s' % (k, v))
        if len(self.viol) < 20:
            self.viol.append(dict(kind=kind, detail=str(detail)[:1500],
                                  where=self.where,
                                  data={k: str(v)[:6000]
                                        for k, v in data.items()}))

    def expect(self, cond, kind, detail='', **data):
        if not cond:
            self.bad(kind, detail() if callable(detail) else detail, **data)
        return bool(cond)


def in_repo(exc):
    """True if the exception was raised by (or below) code of /repo called
    by the workload, rather than by the machinery itself."""
    src = os.path.realpath(env.SRC)
    for f in traceback.extract_tb(exc.__traceback__):
        if os.path.realpath(f.filename).startswith(src):
            return True
    return False


def short_tb(exc):
    return ''.join(traceback.format_exception(exc)[-6:])[-3000:]


def in_generator(exc):
    """Is it a mistake in the generators, which do not depend on /repo?"""
    last = traceback.extract_tb(exc.__traceback__)
    return any(os.path.basename(f.filename) in ('gen.py', 'schema.py')
               for f in last)


def run_batch(args):
    mod, prop, seed, index, tier, verbose = args
    check = importlib.import_module('mon.checks.' + mod)
    m = Monitor(prop, seed, index, verbose)
    limit = getattr(check, 'BATCH_LIMIT', 240)

    def onalarm(sig, frame):
        raise Hang()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    t0 = time.time()
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            check.batch(m, env.rng(prop, seed, index), index, tier)
    except Hang:
        m.bad('no termination', 'batch did not end within %d s' % limit)
    except Exception as e:
        if in_repo(e):
            m.bad('unexpected %s' % type(e).__name__, str(e),
                  traceback=short_tb(e))
        elif isinstance(e, (MemoryError, OSError)) or in_generator(e):
            err = short_tb(e)
        else:
            # workloads are deterministic and the oracles accept everything
            # the unchanged tree produces: a result no oracle can interpret
            # is one that the property does not allow
            m.bad('result cannot be interpreted', '%s: %s' % (
                type(e).__name__, e), traceback=short_tb(e))
            if os.environ.get('NCMON_DEBUG'):
                err = short_tb(e)
    finally:
        signal.alarm(0)
        env.tidy()
    return dict(index=index, evals=m.evals, events=m.events, seen=m.seen,
                samples=m.samples, viol=m.viol, err=err,
                wall=time.time() - t0)


def known(prop):
    p = os.path.join(ROOT, 'known-findings.json')
    with open(p) as f:
        return [x for x in json.load(f)['findings']
                if x['property'] == prop and x['status'] == 'finding']


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--batch', type=int)
    ap.add_argument('--jobs', type=int,
                    default=min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    if a.selftest:
        import lxml, ncclient, pyang    # noqa: what the checks need
        env.check_import()
        print('ncdiff is imported from', env.SRC)
        return 0
    prop = a.prop.upper()
    mod = prop.lower()
    seed, tier = env.SEED, env.TIER
    env.check_import()
    env.scratch()
    check = importlib.import_module('mon.checks.' + mod)
    if a.replay or a.batch is not None:
        idx = a.batch
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            idx, seed, tier = r['batch'], r['seed'], r['tier']
        if hasattr(check, 'setup'):
            check.setup(tier)
        r = run_batch((mod, prop, seed, idx, tier, True))
        print(dict(r['events']), r['evals'], 'wall %.1f' % r['wall'])
        if r['err']:
            print(r['err'])
        return 1 if r['viol'] else 2 if r['err'] else 0

    t0 = time.time()
    n = check.BATCHES[tier]
    cap = check.CAP[tier] if hasattr(check, 'CAP') else \
        dict(quick=300, thorough=3600)[tier]
    if hasattr(check, 'setup'):
        try:
            check.setup(tier)
        except Exception as e:
            if not in_repo(e):
                raise
            return report(prop, check, seed, tier, [dict(
                index=0, evals=0, events=Counter(), seen=set(), samples=[],
                viol=[dict(kind='unexpected %s in setup' % type(e).__name__,
                           detail=str(e), where='setup',
                           data=dict(traceback=short_tb(e)))],
                err=None, wall=0)], n, t0)
    env.keep()
    work = [(mod, prop, seed, i, tier, False) for i in range(n)]
    res = []
    ctx = mp.get_context('fork')
    if a.jobs == 1:
        for w in work:
            res.append(run_batch(w))
    else:
        with ctx.Pool(a.jobs, maxtasksperchild=getattr(
                check, 'TASKS_PER_CHILD', 40)) as pool:
            it = pool.imap_unordered(run_batch, work)
            while len(res) < n:
                left = cap - (time.time() - t0)
                try:
                    res.append(it.next(timeout=max(left, 1)))
                except mp.TimeoutError:
                    break
                except StopIteration:
                    break
                # enough evidence of a violation: stop early
                if sum(1 for r in res if r['viol']) >= 12:
                    break
            pool.terminate()
    return report(prop, check, seed, tier, res, n, t0)


def report(prop, check, seed, tier, res, n, t0):
    res.sort(key=lambda r: r['index'])
    events, seen, samples = Counter(), set(), []
    for r in res:
        events.update(r['events'])
        seen |= r['seen']
        for s in r['samples']:
            if len(samples) < 3:
                samples.append(s)
    fnd = known(prop)
    hit, viol = {}, []
    for r in res:
        for v in r['viol']:
            for k in fnd:
                if v['kind'] == k['kind']:
                    hit[k['id']] = k
                    break
            else:
                viol.append((r['index'], v))
    os.makedirs(EVID, exist_ok=True)
    errs = [r for r in res if r['err']]
    ev = dict(
        property=prop, tier=tier, seed=seed,
        level=getattr(check, 'LEVEL', 'exploration'),
        coverage=dict(
            evaluations=sum(r['evals'] for r in res),
            distinct_nontrivial=len(seen), rule=check.RULE, samples=samples,
            batches_planned=n, batches_run=len(res),
            events={k: events[k] for k in sorted(events)}),
        assumptions=list(getattr(check, 'ASSUME', [])),
        wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str, ensure_ascii=True)
        f.write('\n')
    for k in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s seed=%d: %d evaluations, %d distinct, %d/%d batches, '
          '%.1f s' % (prop, tier, seed, ev['coverage']['evaluations'],
                      len(seen), len(res), n, time.time() - t0))
    if viol:
        kinds = set()
        for i, (idx, v) in enumerate(viol):
            if v['kind'] in kinds or len(kinds) >= 5:
                continue
            kinds.add(v['kind'])
            path = os.path.join(EVID, 'replay-%s-%d.json' % (prop, len(kinds)))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, seed=seed, tier=tier, batch=idx,
                               cmd='./check %s --replay %s' % (prop, path),
                               violation=v), f, indent=1, default=str)
                f.write('\n')
            print('  batch %d: %s: %s' % (idx, v['kind'],
                                          v['detail'][:300]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errs:
        print('machinery error in batch %d:\n%s' % (errs[0]['index'],
                                                    errs[0]['err']))
        return 2
    miss = [k for k, v in check.REQUIRED.items() if events.get(k, 0) < v]
    if miss:
        print('vacuous run: too few events %s' % (
            {k: (events.get(k, 0), check.REQUIRED[k]) for k in miss}))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
