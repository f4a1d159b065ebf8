#!/usr/bin/env python3
"""check.py PROPERTY            decide one property on /repo's current tree (VERIF_TIER, VERIF_SEED)
check.py --setup               build every harness
check.py --replay FILE         re-run the episode recorded in a replay file"""
import sys, os, json, subprocess, time, fcntl
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
WS = os.environ.get('VERIF_WS', V + '/build/ws')
HARNESS = json.load(open(V + '/harness/map.json'))  # property -> {harness, level, technique}
ENV = dict(os.environ, RUSTFLAGS='-Awarnings', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', RUST_MIN_STACK=str(64 << 20))
ENV.pop('RUSTUP_TOOLCHAIN', None)
def build(pkgs, keep_going=False):
    os.makedirs(WS, exist_ok=True)
    with open(WS + '/.lock', 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if subprocess.run([sys.executable, V + '/tools/genws.py', WS, REPO, V]).returncode: return False
        c = ['cargo', 'build', '--offline', '--quiet'] + (['--keep-going'] if keep_going else [])
        for p in pkgs: c += ['-p', p]
        r = subprocess.run(c, cwd=WS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write('\n'.join(r.stdout.split('\n')[-60:])); print('BUILD FAILED'); return False
    return True
def harnesses(pid): return [HARNESS[pid]['harness'], *HARNESS[pid].get('also', [])]
def run(pid, harness, tier, seed, extra=()):
    outdir = f'{V}/build/out/{harness}'; os.makedirs(outdir, exist_ok=True)
    f = f'{outdir}/{pid}.result.json'
    if os.path.exists(f): os.remove(f)
    r = subprocess.run([f'{WS}/target/debug/{harness}', '--property', pid, '--tier', tier, '--seed', str(seed), '--out', outdir, '--known', V + '/known_findings.json', *extra], env=ENV, timeout=850 if tier == 'quick' else None)
    return r.returncode, (json.load(open(f)) if os.path.exists(f) else None)
def main():
    a = sys.argv[1:]
    if a[0] == '--setup':
        hs = sorted({h for p in HARNESS for h in harnesses(p)})
        ok = build(hs, True); sys.exit(0 if ok else 1)
    if a[0] == '--replay':
        d = json.load(open(a[1]))
        h = d.get('harness', HARNESS[d['property']]['harness'])
        if not build([h]): sys.exit(2)
        rc, _ = run(d['property'], h, d['tier'], d['seed'], ['--episode', str(d['episode']), '-v']); sys.exit(rc)
    pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time(); h = HARNESS[pid]
    if not build(harnesses(pid)): sys.exit(2)
    tb = time.time() - t0; rc, res = 0, None
    for part in harnesses(pid):  # the pallet on its own, then as the runtime binds it
        rc, r = run(pid, part, tier, seed)
        if r is None: print(f'{part} ended without a result (rc {rc})'); sys.exit(2)
        if res is None: res = r
        else:
            for k, v in r['counters'].items(): k = k if k in ('monitor_evaluations', 'episodes', 'ops') else f'{part}: {k}'; res['counters'][k] = res['counters'].get(k, 0) + v
            for k in ('distinct_states', 'episodes', 'wall_s'): res[k] += r[k]
            for k in ('known', 'notes', 'missing'): res[k] += r[k]
            res['samples'] = res['samples'][:2] + r['samples'][:2]; res['violation'] = res['violation'] or r['violation']
        if rc: break
    c = res['counters']
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': h.get('level', 'exploration'), 'wall_s': round(time.time() - t0, 2),
          'coverage': {'evaluations': c.get('ops', 0), 'distinct_nontrivial': min(res['distinct_states'], c.get('ops', 0)), 'rule': h.get('rule', 'an evaluation is one operation executed on the real code with the monitors armed; it is distinct when the observed outcome and resulting ledger digest were not seen before'),
                       'samples': res['samples'][:4], 'monitor_evaluations': c.get('monitor_evaluations', 0), 'episodes': res['episodes'],
                       'events': {k: v for k, v in c.items() if k not in ('monitor_evaluations', 'episodes', 'ops')}, 'build_s': round(tb, 1), 'run_s': round(res['wall_s'], 2), 'required_events_missing': res['missing']},
          'assumptions': ['external substrate/frontier crates are replaced by the re-implementations in /verif/shim (see DESIGN.md)'], 'violations': 1 if rc == 1 else 0,
          'known_findings': res['known'], 'notes': res['notes'], 'violation': res['violation']}
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    if rc == 0: sys.exit(0)
    if rc == 1:
        os.makedirs(V + '/replays', exist_ok=True); p = f'{V}/replays/{pid}-{tier}-{seed}.json'
        v = res['violation'] or {'key': 'nothing-succeeds', 'msg': str(res['missing']), 'episode': 0, 'trace': []}
        json.dump({'property': pid, 'harness': part, 'tier': tier, 'seed': seed, **{k: v[k] for k in ('episode', 'key', 'msg', 'trace')}}, open(p, 'w'), indent=1)
        print(f'VIOLATION property={pid} replay={p}'); sys.exit(1)
    sys.exit(2)
main()
