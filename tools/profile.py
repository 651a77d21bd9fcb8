"""profile.py <property> [--thorough] [n]: the cost of every configuration (one job each)"""
import sys, os, subprocess, json, collections
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid = sys.argv[1]; th = '--thorough' in sys.argv
spec = specs.SPECS[pid]('thorough' if th else 'quick'); out = build.Build(spec['harness']).ir()
d = f'{V}/build/prof-{pid}'; subprocess.run(['rm', '-rf', d]); os.makedirs(d)
jobs = []
for e, cs in spec['jobs'].items():
    for i, c in enumerate(cs):
        jobs.append((f'{e}-{i}', e, c[0] if isinstance(c, tuple) else c, '0/1'))
open(d + '.jobs', 'w').write(''.join('\t'.join(j) + '\n' for j in jobs))
subprocess.run([out['symex'], out['ll'], d + '.jobs', d, '--par', '8', '--time', '600', '--total', '900', '--steps', str(spec.get('steps', 20000000)), '--warm', 'h_warmup', '--samples', '1'], stdout=subprocess.DEVNULL)
r = []
for j in jobs:
    p = f'{d}/{j[0]}.json'
    if os.path.exists(p):
        x = json.load(open(p))
        if 'seconds' in x: r.append((x['seconds'], x['paths'], x['solver'].get('queries'), x['solver'].get('seconds'), j[0], bytes.fromhex(j[2])[-70:]))
r.sort(reverse=True)
print(len(jobs), 'configurations', sum(x[0] for x in r), 's', sum(x[1] for x in r), 'paths; missing', len(jobs) - len(r))
n = int(sys.argv[-1]) if sys.argv[-1].isdigit() else 15
for x in r[:n]: print('%.2f s %d paths %s queries %.2f s %s %r' % x)
for q in (0.5, 0.9): print(q, r[int(len(r) * (1 - q))][:2])
