"""check / worker / replay / selftest entry points (see /verif/check)."""
import argparse
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
NWORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def env_for(hashseed):
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='',
             TF_CPP_MIN_LOG_LEVEL='3', PYTHONHASHSEED=str(hashseed), RAY_USAGE_STATS_ENABLED='0', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1', TQDM_DISABLE='1',
             XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
             PYTHONPATH=HERE, MPLCONFIGDIR=os.path.join(e.get('VERIF_SCRATCH', '/tmp'), 'mpl'), PYTHONWARNINGS='ignore')
    return e


def spawn_worker(prop, seed, first, stride, budget, max_runs, min_runs, hashseed, extra=()):
    r, w = os.pipe()
    cmd = [PY, '-m', 'sim.cli', 'worker', prop, '--seed', str(seed), '--first', str(first), '--stride', str(stride),
           '--budget', str(budget), '--max-runs', str(max_runs), '--min-runs', str(min_runs), '--fd', str(w), *extra]
    errf = tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, cwd=HERE, env=env_for(hashseed), pass_fds=(w,), stdout=subprocess.DEVNULL, stderr=errf,
                         stdin=subprocess.DEVNULL)
    os.close(w)
    p.errf = errf
    p.rfd = r
    p.buf = b''
    p.hashseed = hashseed
    p.finished = False
    return p


def pump(procs, deadline, on_msg, stop):
    """collect messages of the workers until all are done, stop() holds or the deadline passes"""
    live = list(procs)
    while live and time.time() < deadline and not stop():
        rl, _, _ = select.select([p.rfd for p in live], [], [], 1.0)
        for p in list(live):
            if p.rfd in rl:
                data = os.read(p.rfd, 1 << 16)
                if not data:
                    live.remove(p)
                    continue
                p.buf += data
                *lines, p.buf = p.buf.split(b'\n')
                for ln in lines:
                    if ln.strip():
                        m = json.loads(ln)
                        if m['type'] == 'done':
                            p.finished = True
                        on_msg(p, m)
    late = [p for p in live if not p.finished]
    return late


def kill(procs):
    for p in procs:
        if p.poll() is None:
            p.kill()
    for p in procs:
        p.wait()
        try:
            os.close(p.rfd)
        except OSError:
            pass


def write_replay(prop, seed, hashseed, m, prefix):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '{}-{}-{}-{}.json'.format(prop, m['scenario'], seed, max(m['idx'], 0)))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'scenario': m['scenario'], 'seed': seed, 'run': m['idx'], 'hashseed': hashseed,
                   'kind': m['kind'], 'detail': m['detail'], 'choices': m['choices'], 'labels': m['labels'],
                   'trace': m['desc'], 'prefix': prefix, 'unshrunk_choices': len(m.get('original', [])),
                   'traceback': (m.get('tb') or '').splitlines()[-25:]}, f, indent=1)
    return path


def confirm(path, hashseed, timeout=300):
    try:
        p = subprocess.run([PY, '-m', 'sim.cli', 'replay', path, '--quiet'], cwd=HERE, env=env_for(hashseed),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=timeout)
        return p.returncode == 1
    except subprocess.TimeoutExpired:
        return False


def confirm_any(prop, seed, hashseed, m):
    """the violation has to repeat in a fresh process; earlier runs of the same worker are added only if needed"""
    pre = m.get('prefix', [])
    cands = [(m['choices'], [])]
    if m.get('original') is not None and m['original'] != m['choices']:
        cands.append((m['original'], []))
    for k in (1, 4, 16, len(pre)):
        if pre and k <= max(len(pre), 1):
            cands.append((m.get('original') or m['choices'], pre[-k:]))
    end = time.time() + 240
    for ch, prefix in cands:
        if time.time() > end:
            break
        m2 = dict(m, choices=ch)
        path = write_replay(prop, seed, hashseed, m2, prefix)
        if confirm(path, hashseed):
            return path
    return None


def check(prop, tier, seed):
    from .budgets import BUDGET
    t0 = time.time()
    b = BUDGET[prop][tier]
    scratch = tempfile.mkdtemp(prefix='verif-{}-'.format(prop), dir='/tmp')
    os.environ['VERIF_SCRATCH'] = scratch
    nw = min(NWORKERS, b.get('workers', NWORKERS))
    msgs = dict(runs=[], violations=[], harness=[], known=[])
    procs = []
    verdict = 2
    try:
        for w in range(nw):
            procs.append(spawn_worker(prop, seed, w, nw, b['seconds'], b.get('max_runs', 10 ** 9), b.get('min_runs', 1), w))

        def on_msg(p, m):
            if m['type'] == 'run':
                msgs['runs'].append(m)
            elif m['type'] == 'violation':
                m['hashseed'] = p.hashseed
                msgs['violations'].append(m)
            elif m['type'] == 'harness':
                msgs['harness'].append(m)
            elif m['type'] == 'known':
                msgs['known'].append(m)

        grace = b.get('grace', 240)
        late = pump(procs, t0 + b['seconds'] + grace, on_msg, lambda: bool(msgs['violations']))
        crashed = [] if msgs['violations'] else [p for p in procs if not p.finished]
        errs = []
        for p in crashed:
            p.poll()
            p.errf.seek(0)
            errs.append('worker {} ended without a verdict (late={}, rc={}): {}'.format(
                p.hashseed, p in late, p.poll(), p.errf.read()[-2000:].decode(errors='replace')))
        kill(procs)
        confirmed = None
        for m in msgs['violations']:
            path = confirm_any(prop, seed, m['hashseed'], m)
            if path:
                confirmed = (m, path)
                break
            print('unconfirmed: {} {} {}'.format(m['scenario'], m['kind'], m['detail'][:300]))
            print(m.get('tb') or '')
        seen = set()
        for m in msgs['known']:
            if m['what'] not in seen:
                seen.add(m['what'])
                print('KNOWN-FINDING: property={} {}'.format(prop, m['what']))
        wall = time.time() - t0
        evidence(prop, tier, seed, msgs, wall, confirmed, nw)
        if confirmed:
            m, path = confirmed
            print('seed={} scenario={} run={} kind={}'.format(seed, m['scenario'], m['idx'], m['kind']))
            print('detail: ' + str(m['detail'])[:600])
            for d in m['desc']:
                print('  ' + str(d)[:300])
            print('choices after minimisation: {} (of {})'.format(len(m['choices']), len(m.get('original', []))))
            print('VIOLATION property={} replay={}'.format(prop, path))
            verdict = 1
        elif msgs['violations'] or msgs['harness'] or errs:
            for h in msgs['harness']:
                print('HARNESS {} run {}: {}\n{}\n{}'.format(h['scenario'], h['idx'], h['detail'], h.get('tb'),
                                                             '\n'.join(h.get('desc') or [])))
            for e in errs:
                print('ERROR ' + e)
            verdict = 2
        else:
            runs = [r for r in msgs['runs'] if r['outcome'] == 'ok']
            print('{}: {} runs held, {:.0f} s'.format(prop, len(runs), wall))
            verdict = 0 if runs else 2
    finally:
        kill([p for p in procs if p.poll() is None])
        shutil.rmtree(scratch, ignore_errors=True)
    return verdict


def evidence(prop, tier, seed, msgs, wall, confirmed, nw):
    from collections import Counter
    from .budgets import ABOUT
    ok = [r for r in msgs['runs'] if r['outcome'] in ('ok', 'violation')]
    nontrivial = [r for r in ok if r['compared'] > 0 and (r['n_sched'] or r['faults'] or r['n_switch'] or r['ops'] >= 2)]
    faults, per, probes = Counter(), Counter(), Counter()
    for r in ok:
        faults.update(r['faults'])
        per[r['scenario']] += 1
        probes.update(r['probes'])
    about = ABOUT.get(prop, {})
    samples = [{'scenario': r['scenario'], 'run': r['idx'], 'steps': r['desc']} for r in msgs['runs'] if r.get('desc')][:12]
    cov = {
        'evaluations': len(ok),
        'distinct_nontrivial': len({(r['scenario'], r['digest']) for r in nontrivial}),
        'rule': 'One evaluation is one simulated run: a workload, a configuration, a schedule and a fault sequence drawn '
                'from one seed. Non-trivial: at least one result was compared with its oracle and the run contained a '
                'scheduling decision, a thread switch, a fired fault or a history of two or more operations. Distinct: '
                'different digest of the complete event log and choice sequence.',
        'samples': samples,
        'runs_discarded': len([r for r in msgs['runs'] if r['outcome'] == 'discard']),
        'runs_per_scenario': dict(per),
        'runs_per_hour': round(len(ok) / wall * 3600) if wall else 0,
        'seeds_per_hour': round(len(ok) / wall * 3600) if wall else 0,
        'simulated_seconds': round(sum(r['simt'] for r in ok), 1),
        'worker_tasks_executed': sum(r['n_tasks'] for r in ok),
        'thread_switches': sum(r['n_switch'] for r in ok),
        'scheduling_decisions': sum(r['n_sched'] for r in ok),
        'distinct_schedules': len({r['sched'] for r in ok if r['n_sched']}),
        'faults_fired': dict(faults),
        'probes': dict(probes),
        'comparisons': sum(r['compared'] for r in ok),
        'real_components': about.get('real', []),
        'stub_components': about.get('stub', []),
        'worker_processes': nw,
    }
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': int(seed), 'level': 'exploration', 'coverage': cov,
          'assumptions': about.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': 1 if confirmed else 0}
    with open(os.path.join(d, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def selftest(props, seed, n):
    """determinism: every run must have the same digest whatever the process, the worker count and the hash seed"""
    bad = 0
    for prop in props:
        ref = {}
        # where the code under test iterates over a set of strings, its own path depends on the hash seed (replay files carry it)
        one_hash = prop in ('C13',)
        for nw, hs0 in ((1, 0), (4, 11), (3, 50)):
            procs = [spawn_worker(prop, seed, w, nw, 10 ** 6, (n + nw - 1 - w) // nw, 1, 0 if one_hash else hs0 + w, ('--selftest',)) for w in range(nw)]
            got = {}

            def on_msg(p, m):
                if m['type'] == 'run':
                    got[m['idx']] = (m['scenario'], m['outcome'], m['digest'])
                elif m['type'] in ('harness',):
                    print('harness', m['detail'], m.get('tb'))
            pump(procs, time.time() + 1800, on_msg, lambda: False)
            kill(procs)
            for i, v in sorted(got.items()):
                if i in ref and ref[i] != v:
                    print('{} run {}: {} != {}'.format(prop, i, ref[i], v))
                    bad += 1
                ref.setdefault(i, v)
        print('{}: {} runs compared in 3 layouts'.format(prop, len(ref)))
        sys.stdout.flush()
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('prop')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    c.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    w = sub.add_parser('worker')
    w.add_argument('prop')
    for a, t, d in (('seed', int, 1), ('first', int, 0), ('stride', int, 1), ('budget', float, 10.), ('max-runs', int, 10 ** 9),
                    ('min-runs', int, 1), ('fd', int, 1)):
        w.add_argument('--' + a, type=t, default=d)
    w.add_argument('--only')
    w.add_argument('--selftest', action='store_true')
    r = sub.add_parser('replay')
    r.add_argument('path')
    r.add_argument('--quiet', action='store_true')
    s = sub.add_parser('selftest')
    s.add_argument('props', nargs='*')
    s.add_argument('--seed', type=int, default=1)
    s.add_argument('--n', type=int, default=40)
    o = sub.add_parser('one')
    o.add_argument('prop')
    o.add_argument('scenario')
    o.add_argument('--idx', type=int, default=0)
    o.add_argument('--seed', type=int, default=1)
    o.add_argument('--n', type=int, default=1)
    o.add_argument('--events', action='store_true')
    a = ap.parse_args()
    if a.cmd == 'check':
        rc = check(a.prop, a.tier, a.seed)
        sys.stdout.flush()
        os._exit(rc)
    if a.cmd == 'worker':
        from .runner import worker
        worker(a.prop, a.seed, a.first, a.stride, a.budget, a.max_runs, a.fd, a.min_runs, only=a.only, selftest=a.selftest)
        os._exit(0)
    if a.cmd == 'replay':
        if os.environ.get('VERIF_REPLAY_CHILD') != '1' and not a.quiet:
            rec = json.load(open(a.path))
            e = env_for(rec['hashseed'])
            e['VERIF_REPLAY_CHILD'] = '1'
            os.execve(PY, [PY, '-m', 'sim.cli', 'replay', a.path], e)
        from .runner import replay
        rec, res = replay(a.path)
        same = res.outcome == 'violation' and res.kind == rec['kind']
        if not a.quiet:
            print('property {} scenario {}: {} {}'.format(rec['property'], rec['scenario'], res.outcome, res.kind))
            print(res.detail)
            for d in res.sim.desc:
                print('  ' + d)
            for e in res.sim.keep_events or []:
                print('    ' + e[:200])
            print(res.tb or '')
        sys.stdout.flush()
        os._exit(1 if same else (0 if res.outcome == 'ok' else 2))
    if a.cmd == 'selftest':
        from .budgets import BUDGET
        os._exit(selftest(a.props or sorted(BUDGET), a.seed, a.n))
    if a.cmd == 'one':
        from . import runner
        runner.setup_process()
        mod = runner.load(a.prop)
        with runner.muted():
            if hasattr(mod, 'prepare'):
                mod.prepare()
        for k in range(a.n):
            t = time.monotonic()
            with runner.muted():
                res = runner.run_once(runner.scenario_of(mod, a.scenario), seed=runner.run_seed(a.seed, a.prop, a.scenario, a.idx + k),
                                      keep_events=a.events)
            print('run {} {} {} {} [{:.2f}s] digest {} compared {} sched {} switch {} tasks {} faults {}'.format(
                a.idx + k, res.outcome, res.kind, (res.detail or '')[:300], time.monotonic() - t, res.sim.digest(), res.sim.compared,
                res.sim.n_sched, res.sim.n_switch, res.sim.n_tasks, dict(res.sim.faults)))
            if res.outcome in ('violation', 'harness') or a.n == 1:
                for d in res.sim.desc:
                    print('   ' + d[:400])
                if res.tb:
                    print(res.tb)
            if a.events:
                for e in res.sim.keep_events:
                    print('     ', e[:200])
            sys.stdout.flush()
        os._exit(0)


if __name__ == '__main__':
    main()
