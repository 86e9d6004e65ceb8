"""Repeats deltas, or compiles models, in a new process (other string hashes,
other addresses).

Reads a JSON list of jobs from stdin, writes the list of results to stdout."""
import json
import os
import subprocess
import sys


def run(jobs, hashseed):
    """Deltas of `jobs` as a new process computes them, or an error text."""
    from . import env
    e = dict(os.environ, PYTHONHASHSEED=str(hashseed), NCDIFF_REPO=env.REPO)
    p = subprocess.run([sys.executable, '-m', 'mon.fresh'], cwd=env.VERIF,
                       env=e, input=json.dumps(jobs), capture_output=True,
                       text=True, timeout=120)
    if p.returncode:
        return p.stderr[-1500:]
    return json.loads(p.stdout)


def plain(e):
    return [e.tag, sorted(list(x) for x in e.attrib.items()),
            [plain(c) for c in e]]


def main():
    from . import device
    from ncdiff import Config, ConfigDelta
    from lxml import etree
    devices, out = {}, []
    for j in json.load(sys.stdin):
        f = j['folder']
        if 'compile' in j:
            from ncdiff.model import ModelCompiler
            c = ModelCompiler(f)
            out.append([plain(c.compile(x).tree) for x in j['compile']])
            continue
        if f not in devices:
            devices[f] = device.make_device(f, [tuple(x) for x in j['mods']])
        a, b = [Config(devices[f], j[k]) for k in 'ab']
        out.append(etree.tostring(ConfigDelta(a, b, **j['options']).nc)
                   .decode())
    json.dump(out, sys.stdout)


if __name__ == '__main__':
    main()
