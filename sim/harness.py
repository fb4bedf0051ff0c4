"""Command line: seeded search over simulated runs, minimisation, replay, evidence.

  harness.py check PROPERTY [quick|thorough]     exit 0 held, 1 violation found, 2 the harness itself failed
  harness.py replay FILE                         re-executes a replay file; exit 1 if it reproduces exactly
  harness.py selftest [PROPERTY...]              same seed => same digest, across repetitions, workers and hash seeds
"""
import copy
import importlib
import json
import os
import signal
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
HANG_CPU = 40.0


# ------------------------------------------------------------------------------------------------ per-run plumbing
def process_died(p, prop):
    """A simulated process ended with an uncaught exception nobody expected: the code's doing or ours?"""
    from . import core, loader
    tb = p.exc.__traceback__
    files = []
    while tb is not None:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    if isinstance(p.exc, (OSError, ValueError)):      # the simulated system refuses what the code asked for
        while files and files[-1].endswith(('/sim/seams.py', '/sim/vfs.py')):
            files.pop()
    if type(p.exc).__name__ == 'Refused':
        while files and files[-1].endswith('/sim/tampstubs.py'):
            files.pop()
    if isinstance(p.exc, (TypeError, AttributeError)) and 'NoneType' in str(p.exc):         # nothing where a value is needed
        while files and files[-1].endswith(('/sim/tampstubs.py', '/sim/seams.py')):
            files.pop()
    if isinstance(p.exc, ValueError) and any(t in str(p.exc) for t in ('to unpack', 'broadcast', 'mismatch')):    # numbers of the wrong shape
        while files and files[-1].endswith('/sim/tampstubs.py'):
            files.pop()
    last = files[-1] if files else None
    inside = last is not None and (last.startswith(loader.SIM_REPO_DIR) or '/sim/' not in last or '/sim/stubs/' in last)
    inside = inside and any(f.startswith(loader.SIM_REPO_DIR) for f in files)
    text = '%s: %s' % (type(p.exc).__name__, str(p.exc)[:200])
    if inside:
        frames = [x.strip() for x in (p.tb or '').splitlines() if loader.SIM_REPO_DIR in x]
        raise core.Violation('unexpected-error', '%s died with %s at %s' % (p.name, text, frames[-1] if frames else '?'), prop)
    raise RuntimeError('harness failure in %s: %s' % (p.name, p.tb))


def waypoints(body_paths, bad):
    """The configurations of the arm along some paths."""
    out = []
    for bp in body_paths:
        try:
            out.append([tuple(float(v) for v in q) for q in bp.path])
        except (TypeError, AttributeError) as e:
            bad('trajectory', 'returns a motion whose path is no list of configurations (%s)' % e)
    return [q for path in out for q in path]


_hang = {}


def _on_prof(signum, frame):
    """The run has used far more CPU than any run needs."""
    import ctypes
    from . import core
    if not _hang.get('armed'):
        return
    w = core.current_world
    p = w.current if w is not None else None
    if p is not None and getattr(p, 'tid', None) and p.thread.is_alive():
        if not p.dead:
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(p.tid), ctypes.py_object(core.SimHang))
        return
    _hang['armed'] = False
    raise core.SimHang('no simulated process is running')


def run_plan(mod, plan):
    """Execute one plan.  Returns (world or None, violation or None, gap or None)."""
    from . import core
    saved = sys.stdout, sys.stderr, sys.argv
    signal.signal(signal.SIGPROF, _on_prof)
    _hang['armed'] = True
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'HANG_CPU', HANG_CPU), 5.0)
    try:
        w = mod.run(plan)
        return w, None, None
    except core.Violation as v:
        return core.last_world, v, None
    except core.SimHang as e:           # (in the harness: not the code's doing)
        return None, None, 'the oracle took too long'
    except core.StubGap as g:
        return None, None, str(g)
    finally:
        _hang['armed'] = False
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout, sys.stderr, sys.argv = saved


def scen_module(name):
    return importlib.import_module('sim.scen.' + name)


# ------------------------------------------------------------------------------------------------ property table
def table():
    from . import props
    return props.PROPS


# ------------------------------------------------------------------------------------------------ minimisation
def minimise(mod, plan, cls, budget_s=float(os.environ.get('SIM_SHRINK', 25)), budget_n=400):
    """Delta debugging over the plan's lists (faults, operations, switches, ...), keeping the violation's class."""
    t0 = time.time()
    n = [0]

    def still(p):
        if n[0] >= budget_n or time.time() - t0 > budget_s:
            return False
        n[0] += 1
        try:
            _, v, _ = run_plan(mod, p)
        except Exception:
            return False
        return v is not None and v.cls == cls

    cur = copy.deepcopy(plan)
    simp = getattr(mod, 'simplify', None)
    for rnd in range(3):
        before = json.dumps(cur, sort_keys=True)
        for key in mod.SHRINK:
            lst = cur.get(key) or []
            if not lst:
                continue
            if still(dict(cur, **{key: []})):
                cur = dict(cur, **{key: []})
                continue
            chunk = max(1, len(lst) // 2)
            while chunk >= 1:
                i = 0
                while i < len(cur[key]):
                    cand = cur[key][:i] + cur[key][i + chunk:]
                    if still(dict(cur, **{key: cand})):
                        cur = dict(cur, **{key: cand})
                    else:
                        i += chunk
                if chunk == 1:
                    break
                chunk //= 2
        if simp is not None:
            for cand in simp(cur):
                if still(cand):
                    cur = cand
        if json.dumps(cur, sort_keys=True) == before:
            break
    return cur, n[0]


# ------------------------------------------------------------------------------------------------ known findings
def known_findings():
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith('known:'):
                    continue
                d = dict(kv.split('=', 1) for kv in line[6:].split('|')[0].split() if '=' in kv)
                d['match'] = line.split('|', 1)[1].strip() if '|' in line else ''
                out.append(d)
    except OSError:
        pass
    return out


def is_known(prop, v):
    for k in known_findings():
        if k.get('property') == prop and k.get('class') == v['cls'] and k['match'] and k['match'] in v['detail']:
            return k
    return None


# ------------------------------------------------------------------------------------------------ workers
def gen_plan(mod, seed, prop, scen, tier, i):
    from . import core
    plan = mod.gen(core.PRNG(seed, prop, scen, i), prop, tier)
    plan['scenario'], plan['prop'] = scen, prop
    return plan


def do_index(seed, prop, scen, tier, i):
    """One simulated run.  Returns a JSON-able record."""
    from . import core
    mod = scen_module(scen)
    t0 = time.process_time()
    rec = {'i': i, 'scen': scen}
    try:
        plan = gen_plan(mod, seed, prop, scen, tier, i)
    except core.Violation as v:       # the profiling run already broke something
        plan = getattr(v, 'plan', None) or getattr(core, 'last_plan', None)
        w = core.last_world
    except core.StubGap as g:
        rec['gap'] = str(g)
        return rec
    if plan is None:
        rec['error'] = 'no plan'
        return rec
    w, v, gap = run_plan(mod, plan)
    rec['cpu'] = time.process_time() - t0
    if gap is not None:
        rec['gap'] = gap
        return rec
    if w is not None:
        rec.update(steps=w.nsteps, simtime=w.now, faults=w.fault_fired, probes=w.probes, sched=w.sched_trace.hexdigest(),
                   cover=sorted(w.cover), digest=w.digest.hexdigest(), switches=w.nswitch, planned=len(plan.get('faults', [])),
                   nprocs=len(w.procs))
    if i < 40:
        rec['case'] = plan
    if v is not None:
        rec['violation'] = {'cls': v.cls, 'detail': v.detail}
        rec['plan'] = plan
    return rec


def worker(wid, jobs, counter, lock, stop, pipe, seed, prop, tier, deadline):
    """Take run numbers from the shared counter until they are used up; send one line per run."""
    import resource
    import traceback
    out = os.fdopen(pipe, 'wb', buffering=0)

    def send(rec):
        data = json.dumps(rec, default=float).encode()
        out.write(len(data).to_bytes(8, 'big') + data)
    try:
        while not stop.value:
            with lock:
                k = counter.value
                counter.value += 1
            if k >= len(jobs) or time.time() > deadline:
                break
            scen, i = jobs[k]
            try:
                rec = do_index(seed, prop, scen, tier, i)
            except BaseException as e:
                rec = {'i': i, 'scen': scen, 'error': traceback.format_exc()[-3000:]}
            send(rec)
        send({'end': True, 'rss': resource.getrusage(resource.RUSAGE_SELF).ru_maxrss})
    finally:
        out.close()
        os._exit(0)


def search(prop, tier, seed, jobs, wall, nworkers, stop_on_violation=True):
    """Run all jobs [(scenario, index)] in forked workers.  Returns the records, in job order where reached."""
    import multiprocessing as mp
    import selectors
    ctx = mp.get_context('fork')
    counter, stop = ctx.Value('i', 0), ctx.Value('i', 0)
    lock = ctx.Lock()
    deadline = time.time() + wall
    sel = selectors.DefaultSelector()
    pids = []
    for k in range(nworkers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for q, fd in pids:
                try:
                    os.close(fd)
                except OSError:
                    pass
            worker(k, jobs, counter, lock, stop, wr, seed, prop, tier, deadline)
        os.close(wr)
        pids.append((pid, r))
        sel.register(r, selectors.EVENT_READ, bytearray())
    recs = []
    ended = 0
    lost = 0
    while sel.get_map():
        for key, _ in sel.select(timeout=1.0):
            data = os.read(key.fd, 1 << 20)
            buf = key.data
            if not data:
                sel.unregister(key.fd)
                os.close(key.fd)
                continue
            buf += data
            while len(buf) >= 8:
                n = int.from_bytes(buf[:8], 'big')
                if len(buf) < 8 + n:
                    break
                rec = json.loads(bytes(buf[8:8 + n]))
                del buf[:8 + n]
                if rec.get('end'):
                    ended += 1
                    continue
                recs.append(rec)
                if ('violation' in rec and not is_known(prop, rec['violation']) and stop_on_violation) or 'error' in rec:
                    stop.value = 1
        if time.time() > deadline + 120:
            for pid, _ in pids:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
    for pid, _ in pids:
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    lost = nworkers - ended
    recs.sort(key=lambda r: (r['scen'], r['i']))
    return recs, lost


# ------------------------------------------------------------------------------------------------ check
def cmd_check(prop, tier):
    from . import boot
    t0 = time.time()
    seed = os.environ.get('VERIF_SEED', '1')
    boot.boot()
    from . import core
    P = table()[prop]
    for scen in P['scenarios']:
        m = scen_module(scen)
        if hasattr(m, 'warm'):
            m.warm()
    ncpu = int(os.environ.get('SIM_WORKERS', '0')) or max(1, min(8, os.cpu_count() or 1))
    wall = float(os.environ.get('SIM_WALL', P['wall'][tier]))
    counts = {s: n for s, n in P['runs'][tier].items()}
    if os.environ.get('SIM_RUNS'):
        counts = {s: int(os.environ['SIM_RUNS']) for s in counts}
    jobs = []
    total = sum(counts.values())
    # interleave the scenarios so that a cut-off search still covers all of them
    pos = {s: 0 for s in counts}
    for k in range(total):
        s = min((s for s in counts if pos[s] < counts[s]), key=lambda s: ((pos[s] + 1) / counts[s], s))
        jobs.append((s, pos[s]))
        pos[s] += 1
    recs, lost = search(prop, tier, seed, jobs, wall, ncpu)
    search_s = time.time() - t0
    errors = [r for r in recs if 'error' in r]
    gaps = [r for r in recs if 'gap' in r]
    viol = [r for r in recs if 'violation' in r]
    new, known = [], []
    for r in viol:
        (known if is_known(prop, r['violation']) else new).append(r)
    printed = set()
    for r in known:
        k = is_known(prop, r['violation'])
        line = 'KNOWN-FINDING: property=%s %s' % (prop, k['match'])
        if line not in printed:
            printed.add(line)
            print(line)
    report = None
    status = 0
    if new:
        r = new[0]
        mod = scen_module(r['scen'])
        rerun = run_plan(mod, r['plan'])[1]
        if rerun is None or rerun.cls != r['violation']['cls'] or rerun.detail != r['violation']['detail']:
            print('harness error: run %s %d did not reproduce: %s then %s' % (r['scen'], r['i'], r['violation'], rerun))
            status = 2
            report = {'cls': r['violation']['cls'], 'detail': r['violation']['detail'], 'irreproducible': True}
        else:
            plan, tried = minimise(mod, r['plan'], rerun.cls) if rerun.cls != 'hang' else (r['plan'], 0)
            path, v = write_replay(prop, mod, plan, seed, r['i'], r['scen'], tried, r['plan'])
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s: %s' % (v.cls, v.detail))
            print('  scenario %s, seed %s, run %d; minimised with %d executions' % (r['scen'], seed, r['i'], tried))
            report = {'cls': v.cls, 'detail': v.detail, 'replay': path, 'scenario': r['scen'], 'index': r['i']}
            status = 1
    elif errors:
        print('harness error in %s run %d:\n%s' % (errors[0]['scen'], errors[0]['i'], errors[0]['error']))
        status = 2
    elif lost:
        print('harness error: %d worker(s) died' % lost)
        status = 2
    elif recs and len(gaps) > 0.5 * len(recs):
        print('harness error: %d of %d runs needed library features the stand-ins lack: %s' % (len(gaps), len(recs), gaps[0]['gap']))
        status = 2
    elif not recs:
        print('harness error: no run finished')
        status = 2
    if not os.environ.get('SIM_NOEVIDENCE'):
        write_evidence(prop, tier, seed, P, recs, gaps, known, report, search_s, time.time() - t0, total)
    ok = len([r for r in recs if 'digest' in r])
    print('%s %s: %d of %d runs in %.1fs, %d violation(s), %d gap(s)' % (prop, tier, ok, total, time.time() - t0, len(new), len(gaps)))
    sys.stdout.flush()
    return status


def write_replay(prop, mod, plan, seed, index, scen, tried, full):
    _, v, _ = run_plan(mod, plan)
    from . import core
    w = core.last_world
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s-%s-%d.json' % (prop, v.cls, seed, index))
    doc = {'property': prop, 'scenario': scen, 'violation': {'cls': v.cls, 'detail': v.detail}, 'seed': seed, 'index': index,
           'plan': plan, 'digest': w.digest.hexdigest(), 'steps': w.nsteps, 'simulated_seconds': w.now,
           'faults_fired': w.fault_fired, 'schedule_hash': w.sched_trace.hexdigest(), 'minimiser_executions': tried,
           'unminimised': {k: len(full[k]) for k in mod.SHRINK if isinstance(full.get(k), list)},
           'minimised': {k: len(plan[k]) for k in mod.SHRINK if isinstance(plan.get(k), list)},
           'trace': w.events[-400:]}
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1, default=float)
    return path, v


def cmd_replay(path):
    from . import boot
    boot.boot()
    from . import core
    with open(path) as f:
        doc = json.load(f)
    mod = scen_module(doc['scenario'])
    if hasattr(mod, 'warm'):
        mod.warm()
    _, v, gap = run_plan(mod, doc['plan'])
    if v is None:
        print('replay %s: no violation%s' % (path, ' (gap: %s)' % gap if gap else ''))
        return 0
    same = v.cls == doc['violation']['cls'] and v.detail == doc['violation']['detail'] and core.last_world.digest.hexdigest() == doc['digest']
    print('VIOLATION property=%s replay=%s' % (doc['property'], path))
    print('  %s: %s' % (v.cls, v.detail))
    print('  %s' % ('reproduced exactly (same trace digest)' if same else 'DIFFERS from the recorded run: ' + json.dumps(doc['violation'])))
    return 1 if same else 3


# ------------------------------------------------------------------------------------------------ evidence
def write_evidence(prop, tier, seed, P, recs, gaps, known, report, search_s, wall_s, planned):
    ok = [r for r in recs if 'digest' in r]
    faults, probes = {}, {}
    cover, sched, dig = set(), set(), set()
    for r in ok:
        for k, n in r['faults'].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in r['probes'].items():
            probes[k] = probes.get(k, 0) + n
        cover.update(r['cover'])
        if r['nprocs'] > 1:
            sched.add(r['sched'])
        dig.add(r['digest'])
    nontriv = len({r['digest'] for r in ok if P['nontrivial'](r)})
    doc = {
        'property': prop, 'tier': tier, 'seed': int(seed) if str(seed).lstrip('-').isdigit() else 0, 'level': 'exploration',
        'coverage': {
            'evaluations': len(ok), 'distinct_nontrivial': nontriv, 'rule': P['rule'],
            'samples': [sample_of(r) for r in pick_samples(ok, P)],
            'planned_runs': planned,
            'runs_per_hour_one_seed_each': round(len(ok) / max(search_s, 1e-3) * 3600),
            'simulated_seconds': round(sum(r['simtime'] for r in ok), 3), 'simulated_operations': sum(r['steps'] for r in ok),
            'faults_injected': dict(sorted(faults.items())), 'runs_with_faults': sum(1 for r in ok if r['faults']),
            'forced_context_switches': sum(r['switches'] for r in ok),
            'distinct_executions': len(dig), 'distinct_schedules_of_multi_process_runs': len(sched), 'distinct_states': len(cover),
            'state_measure': P.get('state_measure', 'hash of the abstract state after each operation (what is recorded is listed in DESIGN.md)'),
            'probes': dict(sorted(probes.items())),
            'real_components': P['real'], 'stub_components': P['stub'],
            'runs_not_decided': len(gaps), 'gap_examples': sorted({r['gap'] for r in gaps})[:5],
        },
        'wall_s': round(wall_s, 2),
        'assumptions': P.get('assumptions', []),
    }
    if report:
        doc['violations'] = [report]
    if known:
        doc['known_findings_seen'] = len(known)
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True, default=float)
    os.replace(tmp, os.path.join(EVIDENCE, prop + '.json'))


def pick_samples(ok, P):
    nt = [r for r in ok if P['nontrivial'](r) and 'case' in r]
    out = []
    for s in P['scenarios']:
        out += [r for r in nt if r['scen'] == s][:2 if len(P['scenarios']) > 1 else 4]
    return out or ok[:3]


def sample_of(r):
    return {'scenario': r['scen'], 'run': r['i'], 'operations': r['steps'], 'simulated_seconds': round(r['simtime'], 3),
            'faults': r['faults'], 'probes': r['probes'], 'digest': r['digest'], 'plan': r.get('case')}


# ------------------------------------------------------------------------------------------------ selftest
def cmd_digests(prop, tier, n):
    """Print digest per run (used by selftest under different hash seeds and worker counts)."""
    from . import boot
    boot.boot()
    P = table()[prop]
    out = []
    for scen in P['scenarios']:
        for i in range(n):
            r = do_index(os.environ.get('VERIF_SEED', '1'), prop, scen, tier, i)
            out.append([scen, i, r.get('digest'), r.get('sched'), r.get('steps'), (r.get('violation') or {}).get('cls'), r.get('gap')])
    print(json.dumps(out))
    return 0


def cmd_selftest(props):
    import subprocess
    bad = 0
    for prop in props or sorted(table()):
        outs = []
        for hs, order in (('0', 1), ('0', 2), ('12345', 1)):
            env = dict(os.environ, PYTHONHASHSEED=hs, SIM_NOREEXEC='1')
            r = subprocess.run([sys.executable, '-m', 'sim.harness', 'digests', prop, 'quick', '12'], cwd=VERIF, env=env, capture_output=True, text=True)
            outs.append(r.stdout.strip() or r.stderr[-500:])
        same = outs[0] == outs[1] == outs[2] and outs[0].startswith('[')
        print('%s %s' % (prop, 'deterministic' if same else 'DIFFERS'))
        if not same:
            bad = 1
            try:
                for a, b, c in zip(*[json.loads(o) for o in outs]):
                    if not a == b == c:
                        print('   ', a, b, c)
            except Exception:
                print(outs)
    return bad


def main(argv):
    if os.environ.get('PYTHONHASHSEED') != '0' and not os.environ.get('SIM_NOREEXEC'):
        env = dict(os.environ, PYTHONHASHSEED='0')
        os.execve(sys.executable, [sys.executable, '-m', 'sim.harness'] + argv, env)
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(10000)
    if argv[0] == 'check':
        return cmd_check(argv[1], argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    if argv[0] == 'replay':
        return cmd_replay(argv[1])
    if argv[0] == 'digests':
        return cmd_digests(argv[1], argv[2], int(argv[3]))
    if argv[0] == 'selftest':
        return cmd_selftest(argv[1:])
    if argv[0] == 'list':
        print('\n'.join(sorted(table())))
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
