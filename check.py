#!/usr/bin/env python3
"""Runs one property's check.

    python3 check.py C01 [--tier quick|thorough] [--replay FILE]

Starts one worker process per (mode, shard) declared by props/<id>.py, each in a
private scratch directory (numba caches, bytecode, matplotlib and FFTW wisdom go
there, so that nothing in /repo is written), merges what the monitors observed,
writes evidence/<id>.json, and exits

    0  held on everything explored
    1  violated: prints `VIOLATION property=<id> replay=<path>`
    2  inconclusive (a monitor was not reached, a worker died or timed out)
"""
import argparse, hashlib, importlib, json, os, shutil, signal, subprocess, sys
import tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SSQ_VERIF_REPO', '/repo')
PY = os.environ.get('SSQ_VERIF_PY') or (
    '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable)


def load_known():
    known = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('{'):
                    known.append(json.loads(line))
    return [k for k in known if k.get('status') == 'known']


def spec_of(pid):
    """Declarations at the top of the module, without importing its body's
    dependencies (they're only in the worker's interpreter)."""
    import ast
    src = open(os.path.join(HERE, 'props', pid.lower() + '.py')).read()
    out = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            if name in ('MODES', 'SHARDS', 'REQUIRE', 'RULE', 'ASSUMPTIONS', 'LEVEL',
                        'TIMEOUT', 'BUDGET'):
                out[name] = ast.literal_eval(node.value)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.property.upper(), a.tier
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    spec = spec_of(pid)
    modes = spec.get('MODES') or {'main': {}}
    shards = (spec.get('SHARDS') or {}).get(tier, 1)
    budget = (spec.get('BUDGET') or {}).get(tier, {'quick': 60, 'thorough': 420}[tier])
    timeout = (spec.get('TIMEOUT') or {}).get(tier, {'quick': 600, 'thorough': 820}[tier])
    only = None
    if a.replay:
        only = json.load(open(a.replay))
        seed, tier = only['seed'], only['tier']
        # the seed a case was made from does not depend on the number of shards
    tmp = tempfile.mkdtemp(prefix='ssqv_%s_' % pid)
    procs = []
    # tracked files which the package itself rewrites when FFTW is used; workers
    # redirect them, this is a safety net in case they couldn't
    wis = {}
    for name in ('wisdom32', 'wisdom64'):
        path = f'{REPO}/ssqueezepy/utils/{name}'
        wis[path] = open(path, 'rb').read() if os.path.exists(path) else None
    try:
        for mode, m in modes.items():
            for shard in range(m.get('shards', {}).get(tier, shards)):
                if only and (only['mode'], only['shard']) != (mode, shard):
                    continue
                d = os.path.join(tmp, f'{mode}_{shard}')
                os.makedirs(d)
                env = {k: v for k, v in os.environ.items()
                       if not k.startswith(('SSQ_', 'NUMBA_', 'PYTHON'))}
                env.update(PYTHONPYCACHEPREFIX=d + '/pyc', MPLBACKEND='Agg',
                           MPLCONFIGDIR=d + '/mpl', NUMBA_CACHE_DIR=d + '/nb',
                           PYTHONHASHSEED='0', PYTHONPATH=REPO + os.pathsep + HERE,
                           SSQ_GPU='0', SSQV_TMP=d, HOME=d, TMPDIR=d,
                           OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='2')
                env.update(m.get('env', {}))
                cmd = [PY, '-X', 'faulthandler', '-m', 'rt.worker', pid, mode, str(shard),
                       tier, str(seed), str(m.get('budget', {}).get(tier, budget)),
                       d + '/out.json', REPO]
                if only and only.get('case') is not None:
                    cmd.append(str(only['case']))
                log = open(d + '/log', 'wb')
                p = subprocess.Popen(cmd, cwd=d, env=env, stdout=log,
                                     stderr=subprocess.STDOUT, start_new_session=True)
                procs.append((mode, shard, d, p, log))
        deadline = t0 + timeout
        for *_, p, _log in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                pass
        timedout = set()
        for mode, shard, d, p, log in procs:
            if p.poll() is None:
                timedout.add((mode, shard))
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            log.close()

        total = dict(evaluations=0, distinct=set(), events={}, samples=[], viol=[],
                     incon=[], notes={})
        for mode, shard, d, p, _ in procs:
            tag = f'{mode}/{shard}'
            out = {}
            if os.path.exists(d + '/out.json'):
                out = json.load(open(d + '/out.json'))
            tail = open(d + '/log', 'rb').read().decode(errors='replace')
            tail = '\n'.join(line[:400] for line in tail.splitlines())
            if len(tail) > 5000:
                tail = tail[:2500] + '\n...\n' + tail[-2500:]
            if a.v:
                sys.stderr.write(f'--- {tag} rc={p.returncode}\n{tail}\n')
            if (mode, shard) in timedout:
                total['incon'].append(f'{tag}: timed out after {timeout} s')
            elif p.returncode < 0 and -p.returncode in (
                    signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
                    signal.SIGILL):
                out.setdefault('viol', []).append(dict(
                    key='process-crash', mode=mode, shard=shard, case=out.get('current'),
                    msg=f'worker killed by signal {-p.returncode}', witness=tail))
            elif p.returncode != 0:
                total['incon'].append(f'{tag}: worker exited with {p.returncode}: '
                                      + tail[-1500:])
            total['evaluations'] += out.get('evaluations', 0)
            total['distinct'] |= set(out.get('distinct', []))
            for k, v in out.get('events', {}).items():
                total['events'][k] = total['events'].get(k, 0) + v
            total['samples'] += out.get('samples', [])[:3]
            total['viol'] += out.get('viol', [])
            total['incon'] += [f'{tag}: {m}' for m in out.get('incon', [])]
            total['notes'].update(out.get('notes', {}))
    finally:
        for path, data in wis.items():
            now = open(path, 'rb').read() if os.path.exists(path) else None
            if now != data:
                if data is None:
                    os.remove(path)
                else:
                    with open(path, 'wb') as f:
                        f.write(data)
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print('kept', tmp)

    if not only:
        # REQUIRE: about what a run observes at least; much less means that the
        # workload did not reach the monitors (some slack, as machines differ in speed)
        for name, need in (spec.get('REQUIRE') or {}).items():
            need = max(1, int(.35 * need))
            if total['events'].get(name, 0) < need:
                total['incon'].append(f"monitor `{name}` observed "
                                      f"{total['events'].get(name, 0)} < {need} events")
        if total['evaluations'] == 0:
            total['incon'].append('no case was evaluated')

    known = load_known()
    new, found = {}, {}
    for v in total['viol']:
        k = next((k for k in known if k['property'] == pid and k['key'] == v['key']), None)
        (found if k else new).setdefault(v['key'], []).append(v)
    for key, vs in found.items():
        k = next(k for k in known if k['property'] == pid and k['key'] == key)
        print(f"KNOWN-FINDING: property={pid} {k['what']}")

    os.makedirs(HERE + '/evidence', exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get('LEVEL', 'exploration'),
              coverage=dict(evaluations=total['evaluations'],
                            distinct_nontrivial=len(total['distinct']),
                            rule=spec.get('RULE', 'distinct generated parameter sets for '
                                          'which at least one oracle was evaluated'),
                            samples=total['samples'][:8],
                            monitor_events=dict(sorted(total['events'].items())),
                            workers=[f'{m}/{s}' for m, s, *_ in procs],
                            notes=total['notes'], exhaustive=False),
              wall_s=round(time.time() - t0, 2),
              assumptions=spec.get('ASSUMPTIONS', []),
              violations=sum(map(len, new.values())))
    if total['incon']:
        ev['coverage']['inconclusive'] = total['incon'][:10]
    if not only:
        with open(f'{HERE}/evidence/{pid}.json', 'w') as f:
            json.dump(ev, f, indent=1)

    print(f"{pid} [{tier}, seed {seed}]: {total['evaluations']} cases "
          f"({len(total['distinct'])} distinct), "
          f"{sum(total['events'].values())} monitor events, "
          f"{sum(map(len, new.values()))} violations, {time.time() - t0:.1f} s")
    if new:
        os.makedirs(HERE + '/replays', exist_ok=True)
        for key, vs in new.items():
            v = vs[0]
            h = hashlib.sha1(key.encode()).hexdigest()[:10]
            path = f'{HERE}/replays/{pid}-{h}.json'
            with open(path, 'w') as f:
                json.dump(dict(property=pid, key=key, seed=seed, tier=tier,
                               mode=v.get('mode', 'main'), shard=v.get('shard', 0),
                               case=v.get('case'), msg=v['msg'],
                               witness=v.get('witness'), count=len(vs)), f, indent=1)
            print(f'VIOLATION property={pid} replay={path}')
            print(f"    {key} (x{len(vs)}): {v['msg'][:400]}")
        return 1
    if total['incon']:
        for m in total['incon'][:10]:
            print('INCONCLUSIVE', m)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
