"""Scenario for C18 and C19: a campaign deployer runs against a simulated batch scheduler (array jobs, limited capacity, held
jobs, a queue display that lags, fails and lists arrays compactly) until it ends, is stopped or is restarted.  The true queue
is known at every instant and judged after every submission.
"""
import collections
import heapq
import posixpath
import re

from .. import core, harness, loader, shell, world
from ..core import StubGap, Violation, h64

SHRINK = ['outages', 'faults', 'restart', 'stop', 'held', 'lags', 'own']
TAMP = world.REPO_SIM + '/exps/tamp_environment'
SCRIPTS = {'D1': 'deploy_tamp_experiments.py', 'D2': 'deploy_tamp_experiments_kuka.py', 'D3': 'deploy_tamp_adaptive_kuka.py'}
JOBSCRIPT = {'D1': 'deploy_experiments.sh', 'D2': 'deploy_experiments_kuka.sh', 'D3': 'deploy_experiments_kuka_adaptive.sh'}
LIMIT = 100
HEADER = '             JOBID PARTITION     NAME     USER ST       TIME  NODES NODELIST(REASON)\n'
SLACK = 0.5


# ------------------------------------------------------------------------------------------------ plans
def gen(rng, prop, tier):
    which = rng.wpick([('D1', 5), ('D2', 3)] if prop == 'C18' else [('D1', 5), ('D2', 3), ('D3', 1.5)])
    cap = rng.pick([5, 20, 50, 1000])
    wait = rng.pick([0, 60, 400, 400, 1000])             # how long a batch of fifty takes to get through, roughly
    plan = {'exec_seed': rng.randrange(1 << 40), 'which': which, 'cap': cap, 'mean': max(5.0, wait * min(cap, 50) / 50.0), 'spread': rng.pick([0.0, 0.5, 1.0]),
            'user': rng.pick(['alice', 'bob', 'acurtis', 'gk']), 'others': rng.pick([0, 0, 3, 40]), 'lags': [], 'held': [], 'outages': [], 'faults': [],
            'stop': [], 'restart': [], 'latency': rng.pick([0.0, 0.01, 0.5, 2.0]), 'prop': prop, 'tick': 1e-3, 'switches': [], 'own': []}
    span = 41 * (190 + wait)
    m = rng.pick(['none', 'const', 'const', 'mixed', 'mixed'])
    if m == 'const':
        plan['lags'] = [[0, rng.pick([20.0, 60.0, 110.0])]]
    elif m == 'mixed':
        plan['lags'] = [[i, round(rng.random() * 110, 1)] for i in range(rng.pick([3, 10, 40]))]
    if rng.chance(0.45):
        for _ in range(rng.pick([1, 1, 2, 4])):
            plan['outages'].append([round(rng.random() * span, 1), rng.pick([20.0, 200.0, 900.0, 5000.0]), rng.pick(['squeue', 'squeue', 'scancel', 'squeue-out'])])
    if rng.chance(0.4):
        k = rng.pick(['some', 'all', 'tail'])
        plan['held'] = [[k, rng.randrange(1 << 20), rng.pick([0.05, 0.3, 1.0])]]
    if rng.chance(0.4 if prop == 'C19' else 0.15):
        plan['stop'] = [0.0 if rng.chance(0.1) else round(rng.random() * span * rng.pick([0.1, 1.0]), 2)]
    if rng.chance(0.25 if prop == 'C19' else 0.1):
        plan['faults'].append({'proc': 'deployer', 'cls': 'exec', 'kind': rng.pick(['rc', 'rc', 'enomem', 'interrupt']), 'rc': rng.pick([1, 1, 127]),
                               'nth': rng.randrange(1, rng.pick([5, 60, 400]))})
    if rng.chance(0.2):
        plan['own'] = [[rng.pick([1, 20, 45, 80]), rng.pick([300.0, 3000.0, 30000.0]), rng.pick(['run', 'pend', 'held'])]]
    plan['odd'] = [rng.pick([0, 0, 30, 300, 3000]), rng.pick([0.3, 0.8, 1.0])]       # how long jobs are being configured, and how many
    if prop == 'C18' and rng.chance(0.25):
        plan['restart'] = [round(rng.random() * span * 0.6, 1)]
    return plan


# ------------------------------------------------------------------------------------------------ the scheduler
class Queue:
    def __init__(self, plan, w):
        self.plan, self.w = plan, w
        self.jobs = []          # [id, index, user, submit, start, end, held since]
        self.nid = 4000 + plan['exec_seed'] % 1000
        for i in range(plan['others']):
            self.jobs.append([77, i + 1, 'carol', 0.0, 0.0, 1e9, None])
        for n, dur, how in plan['own'][:1]:       # an array of the same user, from something else
            for i in range(n):
                self.jobs.append([78, i + 1, plan['user'], -999.0, -999.0 if how == 'run' else None, dur, -999.0 if how == 'held' else None])
        self.done_to = self.pruned = 0.0
        self.pend = collections.deque()
        self.run = []           # heap of (end, id, index) of the running jobs

    def mine(self, t):
        return [j for j in self.jobs if j[2] == self.plan['user'] and j[3] <= t and t < j[5]]

    def submit(self, t, n):
        self.nid += 1
        for i in range(n):
            j = [self.nid, i + 1, self.plan['user'], t, None, float('inf'), None]
            self.jobs.append(j)
            self.pend.append(j)
        self.advance(t)

    def advance(self, t):
        """Start and end jobs up to time t: first come, first served, at most cap at once."""
        while True:
            while self.run and self.run[0][0] <= self.done_to:
                heapq.heappop(self.run)
            if self.pend and len(self.run) < self.plan['cap']:
                j = self.pend[0]
                at = max(self.done_to, j[3])
                if at > t:
                    break
                self.pend.popleft()
                self.start(j, at)
                if j[4] is not None:
                    heapq.heappush(self.run, (j[5], j[0], j[1]))
                continue
            if not self.run or self.run[0][0] > t:
                break
            self.done_to = self.run[0][0]
        self.done_to = max(self.done_to, t)
        if t > self.pruned + 100:
            self.pruned = t
            self.jobs = [j for j in self.jobs if j[5] > t - 300]

    def start(self, j, at):
        if self.plan['held']:
            k, salt, frac = self.plan['held'][0]
            u = h64(salt, j[0], j[1]) % 10007 / 10007.0
            if (k == 'all') or (k == 'some' and u < frac) or (k == 'tail' and j[1] > 50 * (1 - frac)):
                j[6] = at
                return
        u = h64(self.plan['exec_seed'], j[0], j[1]) % 10007 / 10007.0
        s = self.plan['spread']
        j[4], j[5] = at, at + self.plan['mean'] * (1 - s + 2 * s * u) + 1.0

    def cancel(self, t, user):
        for j in self.jobs:
            if j[2] == user and j[5] > t:
                j[5] = t
        if user == self.plan['user']:
            self.pend.clear()
            self.run = []

    def show(self, s, user, expand, header):
        """The queue as it was at time s: (text, states of the jobs shown)"""
        out = [HEADER] if header else []
        rows = [j for j in self.jobs if (user is None or j[2] == user) and j[3] <= s < j[5]]
        states = []
        groups = {}
        for j in rows:
            if j[6] is not None and j[6] <= s:
                st, why = 'PD', ('(launch failed requeued held)', '(JobHeldUser)')[j[0] % 2]
                states.append('held')
            elif j[4] is not None and j[4] <= s:
                odd = self.plan.get('odd', [0, 0])
                st, why = 'R', 'node%d' % (j[1] % 9)
                if s < j[4] + odd[0] and h64(self.plan['exec_seed'], j[0], j[1], 'odd') % 1000 < 1000 * odd[1]:
                    st = 'CF'
                elif s > j[5] - 20 and odd[0]:
                    st = 'CG'
                states.append('run')
            else:
                st, why = 'PD', '(Resources)'
                states.append('pend')
            if st != 'PD' or expand:
                out.append('%18s xeon-p8 deploy_e %8s %2s %10s %6d %s\n' % ('%d_%d' % (j[0], j[1]), j[2][:8], st, '0:00', 1, why))
            else:
                groups.setdefault((j[0], j[2], why), []).append(j[1])
        for (i, u, why), idx in groups.items():
            rng_ = '%d-%d' % (idx[0], idx[-1]) if len(idx) > 1 else str(idx[0])
            out.append('%18s xeon-p8 deploy_e %8s PD %10s %6d %s\n' % ('%d_[%s]' % (i, rng_), u[:8], '0:00', 1, why))
        return ''.join(out), states


# ------------------------------------------------------------------------------------------------ the run
class Run:
    def __init__(self, plan):
        self.plan, self.prop = plan, plan['prop']
        w = self.w = world.mkworld(plan, tick=plan['tick'], tree=False, max_steps=60_000)
        for f in list(SCRIPTS.values()) + list(JOBSCRIPT.values()):
            w.fs.put(TAMP + '/' + f, '#\n', durable=False)
        self.lock = TAMP + '/tmux_lock.txt'
        w.fs.put(self.lock, '', durable=False)
        w.subprocess_handler = self.handle
        self.q = Queue(plan, w)
        self.ncalls = 0
        self.cache = {}
        self.subs = []              # (time, script, array size, arguments, accepted, process)
        self.last_shown = {}
        self.peak = 0
        self.stopped_at = None
        self.idle_since = 0.0
        self.rejected = None

    def bad(self, prop, cls, detail):
        if prop == self.prop:
            raise Violation(cls, detail, prop)

    # -------------------------------------------------------- programs
    def outage(self, what, t):
        for a, d, k in self.plan['outages']:
            if k.startswith(what) and a <= t < a + d:
                return k
        return None

    def lag(self):
        ls = self.plan['lags']
        return ls[self.ncalls % len(ls)][1] if ls else 0.0

    def handle(self, p, args, shell=False, cwd=None, env=None):
        from .. import shell as mini
        w = self.w
        env = dict(p.env, PWD=cwd or p.cwd)
        if isinstance(args, str):
            if not shell:
                raise FileNotFoundError(2, 'No such file or directory', args)
            stages = self.cache.get(args)
            if stages is None:
                if len(self.cache) > 500:
                    self.cache.clear()
                stages = self.cache[args] = [mini.words(s, env) for s in args.split('|')]
        else:
            stages = [[str(x) for x in args]] if not shell else [mini.words(str(args[0]), env)]
        rc, out, er = self.program(p, stages[0], cwd or p.cwd)
        for s in stages[1:]:
            lines = out.splitlines()
            if s[:1] == ['wc'] and '-l' in s:
                rc, out = 0, '%d\n' % len(lines)
            elif s[:1] == ['tail'] and s[-1].startswith('+'):
                rc, out = 0, '\n'.join(lines[int(s[-1]) - 1:]) + '\n'
            elif s[:1] == ['grep']:
                pat = [x for x in s[1:] if not x.startswith('-')][0]
                fl = ''.join(x[1:] for x in s[1:] if x.startswith('-'))
                hit = [x for x in lines if (re.search(pat, x, re.I if 'i' in fl else 0) is not None) != ('v' in fl)]
                rc, out = (0 if hit else 1), ('%d\n' % len(hit) if 'c' in fl else '\n'.join(hit) + ('\n' if hit else ''))
            else:
                raise StubGap('pipeline stage %s' % s)
        return rc, out, er

    def program(self, p, a, cwd):
        w, q = self.w, self.q
        prog = posixpath.basename(a[0]) if a else ''
        self.ncalls += 1
        asked = w.now
        if self.plan['latency'] and (prog != 'sbatch' or self.plan['which'] == 'D1' or self.ncalls % 16 == 0):
            w.sleep(p, self.plan['latency'] * (h64(self.plan['exec_seed'], self.ncalls, 'lat') % 1000) / 1000.0)
        t = w.now
        q.advance(t)
        user = self.plan['user']
        if prog == 'squeue':
            who, expand, header = None, False, True
            i = 1
            while i < len(a):
                x = a[i]
                if x in ('-u', '--user', '--users'):
                    who, i = a[i + 1], i + 1
                elif x.startswith('--user=') or x.startswith('--users='):
                    who = x.split('=', 1)[1]
                elif x == '--me':
                    who = user
                elif x in ('-r', '--array'):
                    expand = True
                elif x in ('-h', '--noheader'):
                    header = False
                elif re.fullmatch(r'-[rh]+', x):
                    expand, header = expand or 'r' in x, header and 'h' not in x
                elif re.fullmatch(r'-[rh]*u', x):
                    expand, header = expand or 'r' in x, header and 'h' not in x
                    who, i = a[i + 1], i + 1
                else:
                    raise StubGap('squeue %s' % x)
                i += 1
            f = self.outage('squeue', t)
            if f:
                w.count_fault('display-failure')
                self.idle_since = t
                self.last_shown[p.name] = None
                w.log('squeue fails')
                return 1, HEADER if f.endswith('out') else '', 'slurm_load_jobs error: Socket timed out on send/recv operation\n'
            lag = self.lag()
            if lag:
                w.count_fault('display-lag')
            text, states = q.show(t - lag, who, expand, header)
            self.last_shown[p.name] = states
            w.log('squeue', len(states), lag)
            return 0, text, ''
        if prog == 'scancel':
            who = None
            for i, x in enumerate(a):
                if x in ('-u', '--user'):
                    who = a[i + 1]
                elif x.startswith('--user='):
                    who = x.split('=', 1)[1]
                elif x == '--me':
                    who = user
            if who is None:
                raise StubGap('scancel %s' % a)
            if self.outage('scancel', t):
                w.count_fault('cancel-failure')
                return 1, '', 'scancel: error: Socket timed out\n'
            s = self.last_shown.get(p.name)
            w.log('scancel', who, s and len(s))
            if who == user and (not s or any(x != 'held' for x in s)):
                self.bad('C19', 'cancelled', 'at %.0f s the jobs are cancelled; the queue last shown to the deployer %s' % (
                    t, 'was empty' if s == [] else 'is unknown' if s is None else 'had %d jobs, %d of them held' % (len(s), s.count('held'))))
            q.cancel(t, who)
            w.probe('cancelled')
            return 0, '', ''
        if prog == 'sbatch':
            return self.sbatch(p, a, cwd, t, asked)
        if prog == 'echo':
            return 0, ' '.join(a[1:]) + '\n', ''
        return 127, '', '%s: command not found\n' % prog

    def sbatch(self, p, a, cwd, t, asked):
        w, q = self.w, self.q
        n, rest = 1, []
        i = 1
        while i < len(a):
            x = a[i]
            m = re.fullmatch(r'--array=(.*)', x)
            if m or x in ('-a', '--array'):
                if not m:
                    i += 1
                spec = m.group(1) if m else a[i]
                n = 0
                for part in spec.split('%')[0].split(','):
                    lo, _, hi = part.partition('-')
                    n += int(hi or lo) - int(lo) + 1
            elif x.startswith('-') and not rest:
                raise StubGap('sbatch %s' % x)
            else:
                rest.append(x)
            i += 1
        script = posixpath.normpath(posixpath.join(cwd, rest[0])) if rest else ''
        w.log('sbatch', n, rest)
        if w.fs.lookup(script) is None:
            return 1, '', 'sbatch: error: Unable to open file %s\n' % (rest[:1])
        first = self.first_of_batch()
        self.subs.append((t, posixpath.basename(script), n, rest[1:], p.name))
        self.idle_since = t
        q.submit(t, n)
        size = len(q.mine(t))
        self.peak = max(self.peak, size)
        if size > LIMIT and self.plan['which'] != 'D3':
            self.bad('C18', 'queue-limit', '%s: at %.0f s the queue holds %d jobs after a submission of %d (it was last shown %s)' % (
                SCRIPTS[self.plan['which']], t, size, n, 'failing' if self.last_shown.get(p.name) is None else '%d jobs' % len(self.last_shown[p.name])))
        if self.last_shown.get(p.name, 0) is None and first and self.plan['which'] != 'D3':
            self.bad('C18', 'unknown-queue', '%s: at %.0f s a batch is submitted although the queue could not be read' % (SCRIPTS[self.plan['which']], t))
        if self.stopped_at is not None and asked > self.stopped_at + SLACK and first and self.plan['which'] != 'D3':
            self.bad('C19', 'not-stopped', '%s: a batch is submitted at %.0f s, the stop file was removed at %.0f s' % (SCRIPTS[self.plan['which']], t, self.stopped_at))
        if self.rejected is not None and p.name == self.rejected[1]:
            self.bad('C19', 'rejection-ignored', '%s: submits again at %.0f s although its submission at %.0f s was rejected' % (SCRIPTS[self.plan['which']], t, self.rejected[0]))
        w.probe('batch' if first else 'single')
        return 0, 'Submitted batch job %d\n' % q.nid, ''

    def first_of_batch(self):
        """Does the next submission begin a batch?  Arrays are batches of their own; single jobs come in fifties."""
        if self.plan['which'] == 'D1':
            return True
        return len(self.subs) % 50 == 0

    # -------------------------------------------------------- the deployer's life
    def observe(self, w, p, cls, detail):
        if not p.name.startswith('deployer'):
            return
        if cls == 'exec' and 'sbatch' in detail:
            for i, f in enumerate(self.plan['faults']):
                if i not in w.fired_ids and f['kind'] == 'rc' and f['proc'] == p.name and f['nth'] == p.counts.get('exec'):
                    self.rejected = (w.now, p.name)
        if cls == 'sleep':
            self.q.advance(w.now)
            if self.q.mine(w.now):
                self.idle_since = w.now
            if w.now - self.idle_since > 900 + max([x[1] for x in self.plan['lags']], default=0):
                self.bad('C19', 'stalled', '%s: nothing is submitted although the queue has been empty and readable for %.0f s (%d submissions so far)' % (
                    SCRIPTS[self.plan['which']], w.now - self.idle_since, len(self.subs)))

    def start(self, name, at=None):
        path = TAMP + '/' + SCRIPTS[self.plan['which']]
        return self.w.spawn(name, lambda p: loader.run_script(p, path), host='login', argv=[SCRIPTS[self.plan['which']]], cwd=TAMP, start=at,
                            import_dirs=[TAMP, world.REPO_SIM], env={'USER': self.plan['user']})

    def run(self):
        w, plan = self.w, self.plan
        w.observers.append(self.observe)
        p = self.start('deployer')
        for t in plan['stop'][:1]:
            def remove(w):
                if w.fs.lookup(self.lock) is not None:
                    w.fs.unlink(self.lock)
                    self.stopped_at = w.now
                    w.count_fault('stop-request')
                    w.log('STOP')
            w.at(t, remove)
        second = []
        for t in plan['restart'][:1]:
            def restart(w):
                if not p.finished and self.stopped_at is None:
                    w.kill(p)
                    w.count_fault('kill')
                    second.append(self.start('deployer2', w.now + 200.0))
            w.at(t, restart)
        w.run()
        w.log('end', [(q.name, q.exit_code) for q in w.procs], len(self.subs), self.peak)
        w.cover.add(h64(plan['which'], [s[0] // 30 for s in self.subs[::7]], self.peak))
        last = second[-1] if second else p
        if self.prop == 'C19':
            self.check_end(last, bool(second))
        return w

    def check_end(self, p, restarted):
        plan, w = self.plan, self.w
        name = SCRIPTS[plan['which']]
        failed = [plan['faults'][i] for i in w.fired_ids if plan['faults'][i]['proc'] == p.name]
        if self.rejected is not None and p.exit_code == 0:
            self.bad('C19', 'rejection-ignored', '%s: a rejected submission does not make it fail' % name)
        if restarted:
            return
        stopped = self.stopped_at is not None
        if p.exit_code and not stopped and not failed:
            p.name = name
            harness.process_died(p, 'C19') if p.exc is not None else self.bad('C19', 'gave-up', '%s ends with status %s' % (name, p.exit_code))
        got = {}
        for t, script, n, args, _ in self.subs:
            if script != JOBSCRIPT[plan['which']]:
                self.bad('C19', 'wrong-script', '%s submits %s' % (name, script))
            try:
                key = tuple(round(float(x), 9) for x in args)
            except ValueError:
                self.bad('C19', 'arguments', '%s submits with arguments %s' % (name, args))
                key = None
            got.setdefault(key, []).append(n)
        whole = p.exit_code == 0 and not stopped
        if p.exit_code == 0 and stopped and len(self.subs) and False:
            pass
        getattr(self, 'sets_' + plan['which'])(name, got, whole)
        if whole:
            w.probe('deployment-complete')

    def sets_D1(self, name, got, whole, per=(50,), lo=100, hi=50000):
        def bad(msg):
            self.bad('C19', 'argument-sets', '%s: %s' % (name, msg))
        times = len(per)
        ms = {}
        for key, ns in got.items():
            if any(n != per[0] for n in ns):
                bad('%s is submitted as arrays of %s, planned %d' % (key, ns, per[0]))
            if len(key) != 3:
                bad('arguments %s' % (key,))
            if key == (0.0, 0.0, 1.0):
                if len(ns) > times:
                    bad('the adaptive run is submitted %d times, planned %d' % (len(ns), times))
                continue
            a, m, ad = key
            if ad != 0 or m != int(m) or not (lo < m <= hi):
                bad('arguments %s' % (key,))
            which = 'wide' if a == lo - 1 else 'tight' if a == m - 1 else None
            if which is None:
                bad('arguments %s' % (key,))
            ms.setdefault(m, {}).setdefault(which, 0)
            ms[m][which] += len(ns)
        k = 0
        for m, d in ms.items():
            c = max(d.values())
            if c % times and whole or c > times and whole and len(ms) == 20:
                bad('%s is submitted %d times, planned %d' % (m, c, times))
            if whole and (len(d) != 2 or len(set(d.values())) != 1):
                bad('sample count %d: %s' % (m, d))
            k += -(-c // times)
        if whole and got.get((0.0, 0.0, 1.0), []) != [per[0]] * times:
            bad('the adaptive run is submitted %d times, planned %d' % (len(got.get((0.0, 0.0, 1.0), [])), times))
        if whole and k != 20 or k > 20:
            bad('%d sample counts, planned 20' % k)

    def sets_D2(self, name, got, whole):
        self.sets_D1(name, got, whole, per=(1,) * 50, lo=500, hi=100000)

    def sets_D3(self, name, got, whole):
        import math
        want = {tuple(round(x, 9) for x in (d, c, t)) for d in (0.02, 0.03, 0.04) for c in (0.02, 0.03, 0.04) for t in (math.pi / 18, math.pi / 32)}
        for key, ns in got.items():
            if key not in want or any(n != 1 for n in ns) or len(ns) > 5:
                self.bad('C19', 'argument-sets', '%s: %s is submitted %d times as arrays of %s' % (name, key, len(ns), sorted(set(ns))))
        if whole and (set(got) != want or any(len(ns) != 5 for ns in got.values())):
            self.bad('C19', 'argument-sets', '%s: %d of %d argument sets are submitted five times' % (name, sum(len(ns) == 5 for ns in got.values()), len(want)))


def run(plan):
    return Run(plan).run()
