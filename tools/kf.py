"""kf.py C14 HASH...: adds fixed entries to known-findings.json (by hand)."""
import json, subprocess, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                 'known-findings.json')
d = json.load(open(p))
fx = [e for e in d['findings'] if e['status'] == 'fixed']
kn = [e for e in d['findings'] if e['status'] != 'fixed']
for h in sys.argv[2:]:
    w = subprocess.check_output(['git', '-C', '/repo', 'log', '-1',
                                 '--format=%h %s', h], text=True).strip()
    h, w = w.split(' fix: ')
    fx.append(dict(id='F%02d' % (len(fx) + 1), property=sys.argv[1],
                   status='fixed', commit=h,
                   what='fixed: property=%s %s %s' % (sys.argv[1], h, w)))
d['findings'] = fx + kn
with open(p, 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
