#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property by symbolic execution of /repo's current code."""
import sys, os, json, time, subprocess, re, random, collections
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/tools')
import build, specs
from concurrent.futures import ThreadPoolExecutor

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    spec = specs.SPECS[pid](tier)
    b = build.Build(spec['harness'])
    out = b.ir()
    # jobs
    rng = random.Random(seed)
    jobs = []; cfgs = {}
    par = int(os.environ.get('VERIF_PAR') or os.cpu_count() or 4)
    for entry, cs in spec['jobs'].items():
        big = [c for c in cs if isinstance(c, tuple)]
        small = [c for c in cs if not isinstance(c, tuple)]
        small = list(dict.fromkeys(small)); rng.shuffle(small)
        k = min(len(small), spec.get('batches', 8 * par))
        for i in range(k):
            js = small[i::k]; jid = f'{entry}-{i}'
            cfgs[jid] = js; jobs.append((jid, entry, ','.join(js), '0/1'))
        for bi, (c, n) in enumerate(big):
            for i in range(n):
                jid = f'{entry}-x{bi}-{i}'; cfgs[jid] = [c]; jobs.append((jid, entry, c, f'{i}/{n}'))
    jobs.sort(key=lambda j: j[3] == '0/1')
    d = f'{V}/build/run-{pid}'
    subprocess.run(['rm', '-rf', d]); os.makedirs(d)
    open(d + '.jobs', 'w').write(''.join('\t'.join(j) + '\n' for j in jobs))
    t1 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET') or spec.get('budget', 200 if tier == 'quick' else 780))
    steps = spec.get('steps', 20_000_000)
    r = subprocess.run([out['symex'], out['ll'], d + '.jobs', d, '--par', str(par), '--time', str(budget), '--total', str(budget), '--steps', str(steps), '--warm', 'h_warmup', '--samples', '6'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        print(f'ERROR: the engine failed ({r.returncode}): {r.stdout.decode(errors="replace")[-2000:]}'); sys.exit(2)
    t2 = time.time()
    res = []
    for j in jobs:
        p = f'{d}/{j[0]}.json'
        if not os.path.exists(p): print(f'ERROR: no result for job {j[0]}'); sys.exit(2)
        x = json.load(open(p))
        if 'crash' in x: print(f'ERROR: the engine crashed in job {j[0]} (status {x["crash"]})'); sys.exit(2)
        res.append(x)
    ends = collections.Counter(); reach = collections.Counter(); solver = collections.Counter(); funcs = set()
    tot = collections.Counter()
    for x in res:
        ends.update(x['ends']); reach.update({int(k): v for k, v in x['reach'].items()}); funcs.update(x['functions'])
        for k, v in x['solver'].items(): solver[k] = max(solver[k], v) if k.startswith('max') else solver[k] + v
        for k in ('paths', 'forks', 'steps', 'exprs'): tot[k] += x[k]
        for k in ('max_path_steps', 'max_depth'): tot[k] = max(tot[k], x[k])
    open_cfgs = [(x['id'], c) for x in res for c in x['open_configs']]
    replay = b.native()
    t3 = time.time()
    def run(jid, s):
        entry = jid.rsplit('-x', 1)[0] if '-x' in jid else jid.rsplit('-', 1)[0]
        cmd = [replay, entry, cfgs[jid][s['cfg']], s['inputs']]
        try: o = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, env=dict(os.environ, RUST_BACKTRACE='0'))
        except subprocess.TimeoutExpired: return cmd, 'TIMEOUT', '', 'does not terminate within 20 s'
        so = o.stdout.decode(errors='replace'); se = o.stderr.decode(errors='replace')
        last = so.strip().split('\n')[-1] if so.strip() else ''
        if o.returncode != 0 or not re.match(r'(OK|FAIL|PRUNED|KNOWN) ?', last): return cmd, f'CRASH {o.returncode}', so, se[-600:]
        return cmd, last, so, se[-300:]
    # sampled paths: the real code does the same
    samples = [(x['id'], s) for x in res for s in x['samples'] if s['end'] in ('ok', 'assumed-away') or s['end'].startswith('known')]
    rng.shuffle(samples)
    samples = samples[:400 if tier == 'quick' else 1000]
    bad = []; validated = 0; shown = []
    with ThreadPoolExecutor(par) as ex:
        for (jid, s), (cmd, last, so, se) in zip(samples, ex.map(lambda z: run(*z), samples)):
            kind = {'ok': 'OK', 'assumed-away': 'PRUNED'}.get(s['end'], 'KNOWN')
            m = re.search(r'digest=(\w+)', last)
            if 'h_tokens' in jid and kind == 'OK' and (last.startswith('KNOWN 99') or last.startswith('PRUNED')): kind = last.split()[0]
            if not last.startswith(kind) or (m and m[1] != s['digest']): bad.append((cmd, s, last, se))
            else:
                validated += 1
                if len(shown) < 5: shown.append({'entry': cmd[1], 'config': cmd[2][:160], 'inputs': s['inputs'], 'end': s['end']})
    # failures: replayed on the real code before they count
    known = [k for k in json.load(open(V + '/known_findings.json')) if k['property'] == pid and not k.get('fixed')]
    groups = collections.OrderedDict()
    nfail = sum(v for k, v in ends.items() if k.startswith('fail') )
    for x in res:
        for f in x['failures']: groups.setdefault(f['end'], []).append((x['id'], f))
    confirmed = []; unconfirmed = []; hit = collections.OrderedDict()
    todo = [z for g in groups.values() for z in g[:400]]
    with ThreadPoolExecutor(par) as ex:
        for (jid, f), (cmd, last, so, se) in zip(todo, ex.map(lambda z: run(*z), todo)):
            if last.startswith('FAIL') or last.startswith('CRASH') or last == 'TIMEOUT':
                msg = '\n'.join(l[2:] for l in so.split('\n') if l.startswith('| ')) + (('\n' + se) if not last.startswith('FAIL') else '')
                k = next((k for k in known if re.search(k['match'], msg)), None)
                if k: hit.setdefault(k['id'], k)
                else: confirmed.append((cmd, f, last, msg))
            elif last.startswith('KNOWN 99') or (f['end'].startswith('fail') and 'h_tokens' in jid and last.startswith(('OK', 'PRUNED'))): pass
            elif f['end'].startswith('incomplete') and last.startswith(('OK', 'PRUNED', 'KNOWN')): pass   # not decided: outside of the bound
            else: unconfirmed.append((cmd, f, last, se))
    t4 = time.time()
    missing = [c for c in spec.get('reach', []) if not reach[c]]
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['forks'], 'traces_validated_against_impl': validated + len(confirmed),
            'samples': shown or [{'note': 'no sample'}],
            'exhaustive': not open_cfgs and not any(k.startswith('incomplete') for k in ends),
            'explanation': 'states = execution paths of the compiled code, each decided for every value of its symbolic bytes; transitions = solver-decided branches at which paths separate',
            'bounds': spec['bounds'], 'configurations': sum(len(c) for j, c in cfgs.items() if not re.search(r'-x\d+-[1-9]', j)), 'jobs': len(jobs),
            'configurations_not_finished_within_time': len(open_cfgs), 'path_ends': dict(ends),
            'instructions_executed': tot['steps'], 'longest_path_instructions': tot['max_path_steps'], 'expressions': tot['exprs'],
            'solver': {k: (round(v, 3) if isinstance(v, float) else v) for k, v in solver.items()},
            'functions_encoded': len(funcs), 'functions': sorted(f for f in funcs)[:400],
            'reached_oracle_points': {str(k): v for k, v in sorted(reach.items())},
            'validated_samples': validated, 'failing_paths': nfail, 'confirmed_failures': len(confirmed), 'unconfirmed_failures': len(unconfirmed),
            'seconds': {'build_ir': round(t1 - t0, 1), 'analysis': round(t2 - t1, 1), 'native_build_wait': round(t3 - t2, 1), 'replay': round(t4 - t3, 1)},
        },
        'assumptions': ['LLVM IR of rustc (opt-level 1/2, fat LTO, debug assertions and overflow checks on) represents the code', 'engine stubs: allocator, memcpy/memset intrinsics, getrandom (fixed), CPU feature detection (none), write (ignored), see DESIGN.md', 'rowan is built from a copy with its tagged-pointer arithmetic made explicit (third_party/rowan)', 'Z3 4.8.12'],
        'wall_s': round(time.time() - t0, 1), 'violations': len(confirmed),
    }
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    print(f'{pid}: {tot["paths"]} paths, {tot["forks"]} forks, {tot["steps"]} instructions, {solver["queries"]} queries ({solver["seconds"]:.1f} s), {validated} samples validated, {len(open_cfgs)} configurations open; build {t1-t0:.0f} s, analysis {t2-t1:.0f} s, wait {t3-t2:.0f} s, replay {t4-t3:.0f} s')
    print('  ends', dict(ends)); print('  reach', {k: reach[k] for k in sorted(reach)})
    for k in hit.values(): print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    if confirmed:
        os.makedirs(f'{V}/evidence/replay', exist_ok=True)
        seen = set(); n = 0
        for cmd, f, last, msg in confirmed:
            key = (f['end'], msg.split('\n')[0][:60])
            if f['end'] in seen: continue
            seen.add(f['end'])
            p = f'{V}/evidence/replay/{pid}-{n}.json'; n += 1
            json.dump({'property': pid, 'end': f['end'], 'entry': cmd[1], 'config': cmd[2], 'inputs': f['inputs'], 'native': last, 'message': msg, 'command': ' '.join(cmd)}, open(p, 'w'), indent=1)
            print(f'VIOLATION property={pid} replay={p}')
            print('  ' + msg.replace('\n', '\n  ')[:1500])
            if n >= 5: break
        sys.exit(1)
    if bad:
        for cmd, s, last, se in bad[:3]: print(f'ERROR: symbolic and native run differ: {" ".join(cmd)[-400:]}\n  symbolic {s["end"]} {s["digest"]}\n  native {last} {se}')
        sys.exit(2)
    if unconfirmed:
        for cmd, s, last, se in unconfirmed[:3]: print(f'ERROR: the failure {s["end"]} is not reproduced natively: {" ".join(cmd)[-600:]}\n  native {last} {se}')
        sys.exit(2)
    odd = sum(v for k, v in ends.items() if k.startswith('incomplete') and 'limit' not in k)
    if odd * 50 > tot['paths']: print(f'ERROR: too many paths are beyond the engine: {dict(ends)}'); sys.exit(2)
    if missing: print(f'ERROR: vacuous: oracle points {missing} were not reached'); sys.exit(2)
    inc = {k: v for k, v in ends.items() if k.startswith('incomplete')}
    if inc: print('  outside the bound:', inc)
    sys.exit(0)
if __name__ == '__main__':
    try: main()
    except Exception:
        import traceback; traceback.print_exc(); sys.exit(2)
