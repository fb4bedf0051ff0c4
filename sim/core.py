"""Deterministic simulation kernel.

A World runs simulated processes.  Each process is a real thread, but exactly one thread runs at any time and only
the kernel decides which: control changes hands only inside World.step(), which every seam (file system, clock, sleep,
subprocess, randomness, native-library stubs) calls.  What happens at a step - who runs next, which fault fires - is a
pure function of the plan (a JSON document generated from the seed), so a plan is an exactly repeatable execution.

Plan entries used here
  switches: [[step, pick], ...]      at global step `step`, hand control to runnable process number `pick`
  faults:   [{"kind", "proc", "cls", "nth", ...}, ...]   fires at the nth operation of class cls of process proc
"""
import hashlib
import io
import random as _random
import sys
import threading
import time as _time

import numpy as np

BASE_EPOCH = 1_700_000_000.0
last_world = None           # the most recent World created in this interpreter
last_plan = None
current_world = None        # the World being run in this interpreter (one at a time)
_real_get_ident = threading.get_ident


class SimKilled(BaseException):
    """The simulated process is gone: unwinds its thread; nothing it does from here on has any effect."""


class SimStop(SimKilled):
    """The world ended while the process was still running (run limit)."""


class StubGap(BaseException):
    """The code under test used a library feature that the stub does not have: the run decides nothing."""


class Violation(BaseException):
    """A property is broken.  A BaseException so that the code under test cannot swallow it."""
    def __init__(self, cls, detail, prop=None):
        super().__init__('%s: %s' % (cls, detail))
        self.cls, self.detail, self.prop = cls, detail, prop


class SimHang(BaseException):
    """Raised into a simulated process that burnt far more CPU than any run needs without making a simulated step."""


def h64(*parts):
    m = hashlib.blake2b(digest_size=8)
    for p in parts:
        m.update(repr(p).encode())
        m.update(b'\0')
    return int.from_bytes(m.digest(), 'big')


class Host:
    """A machine: its own wall-clock offset and uptime."""
    def __init__(self, name, offset=0.0, boot=1000.0):
        self.name, self.offset, self.boot = name, offset, boot


class Proc:
    _fields = ()

    def __init__(self, world, name, fn, host, argv, cwd, env, start, pid, import_dirs, entropy):
        self.world, self.name, self.fn, self.host = world, name, fn, host
        self.argv, self.cwd, self.env = list(argv), cwd, dict(env or {})
        self.wake = start
        self.pid = pid
        self.import_dirs = list(import_dirs or [])
        self.state = 'ready'          # ready (may run at wake), waiting (condition), done
        self.cond = None
        self.sem = threading.Semaphore(0)
        self.thread = None
        self.dead = False
        self.noswitch = 0
        self.nops = 0
        self.nops_base = 0
        self.counts = {}              # operations per class
        self.modules = {}             # the process's own copies of repository modules
        self.result = None
        self.exc = None
        self.exit_code = None
        self.tb = None
        self.stdout = io.StringIO()
        self.streams = None           # what the process last made of sys.stdout and sys.stderr
        self.sys_path = None
        self.private = set()          # standard library modules it has a copy of
        self.started = False
        self.end_time = None
        self.has_kgraph = False
        self.entropy = entropy        # identity of this process's private randomness
        self.ent_ctr = 0
        self.rand_state = None
        self.np_state = None
        self.quiet = 0                # >0: harness code inside the process; no faults, no switches, no counting
        self.cpu = 0.0
        self.children = []
        self.rng_extreme = None
        self.fdtable = {}
        self.fdctr = 1_000_000
        self.nids = 0
        self.ids = {}                 # object addresses as this process sees them
        self.opid = None              # scenario operation under way (faults may be tied to it)
        self.tag = None               # who the current operation belongs to
        self.profile = None           # operation counts per scenario operation, when profiling

    def output(self):
        return self.stdout.getvalue()

    def begin_op(self, opid, tag=None):
        """A scenario operation starts: faults tied to it count operations from here."""
        self.end_op()
        self.opid, self.tag = opid, tag
        self.counts, self.nops_base = {}, self.nops

    def end_op(self):
        if self.opid is not None:
            self.world.profile[self.name, self.opid] = dict(self.counts, op=self.nops - self.nops_base)
        self.opid = self.tag = None

    @property
    def finished(self):
        return self.state == 'done'


class World:
    def __init__(self, plan, tick=1e-4, max_steps=400_000):
        global last_world, last_plan
        last_world, last_plan = self, plan
        self.plan = plan
        self.seed = plan.get('exec_seed', 0)
        self.now = 0.0
        self.grain = plan.get('clock_grain', 0)
        self.tick = tick
        self.nsteps = 0
        self.max_steps = max_steps
        self.procs = []
        self.hosts = {}
        self.current = None
        self.main_sem = threading.Semaphore(0)
        self.digest = hashlib.blake2b(digest_size=16)
        self.events = []               # bounded human-readable event log
        self.event_cap = 4000
        self.switches = dict((int(s), int(p)) for s, p in plan.get('switches', []))
        self.nswitch = 0
        self.faults = {}
        for i, f in enumerate(plan.get('faults', [])):
            key = (f.get('proc'), f.get('cls'))
            self.faults.setdefault(key, []).append((i, f))
        self.fault_fired = {}          # kind -> count
        self.fired_ids = set()
        self.sched_trace = hashlib.blake2b(digest_size=8)
        self.fs = None
        self.subprocess_handler = None
        self.sleep_hook = None
        self.hit_at = {}              # fault -> the operation it hit
        self.observers = []            # called as f(world, proc, kind, detail) after each step
        self.violations = []
        self.stopping = False
        self.pidctr = 100
        self.cover = set()
        self.timers = []               # (time, seq, fn)
        self.probes = {}
        self.profile = {}              # (process, operation) -> counts per class
        self.error = None

    # ---------------------------------------------------------------- processes
    def host(self, name, **kw):
        if name not in self.hosts:
            self.hosts[name] = Host(name, **kw)
        return self.hosts[name]

    def spawn(self, name, fn, host='h0', argv=('x',), cwd='/', env=None, start=None, pid=None, import_dirs=(), entropy=None):
        self.pidctr += 1
        p = Proc(self, name, fn, self.host(host), argv, cwd, env,
                 self.now if start is None else start, self.pidctr if pid is None else pid, import_dirs,
                 entropy if entropy is not None else name)
        self.procs.append(p)
        return p

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def at(self, t, fn):
        self.timers.append((t, len(self.timers), fn))
        self.timers.sort(key=lambda x: (x[0], x[1]))

    def log(self, *a):
        line = '%.4f %s' % (self.now, ' '.join(str(x) for x in a))
        self.digest.update(line.encode())
        self.digest.update(b'\n')
        if len(self.events) < self.event_cap:
            self.events.append(line)

    # ---------------------------------------------------------------- running
    def _runnable(self):
        out = []
        for p in self.procs:
            if p.state == 'ready' and p.wake <= self.now + 1e-12:
                out.append(p)
            elif p.state == 'waiting' and p.cond():
                p.state, p.cond = 'ready', None
                p.wake = self.now
                out.append(p)
        return out

    def run(self, until=None):
        """Run until every process is done (or `until(world)` holds).  Called from the main thread."""
        global current_world
        current_world = self
        try:
            while True:
                self._fire_timers()
                if until is not None and until(self):
                    break
                if self.nsteps > self.max_steps:
                    raise Violation('no-progress', 'more than %d simulated operations' % self.max_steps)
                r = self._runnable()
                if not r:
                    nxt = [p.wake for p in self.procs if p.state == 'ready'] + [t[0] for t in self.timers[:1]]
                    if not nxt:
                        if any(p.state == 'waiting' for p in self.procs):
                            raise Violation('deadlock', 'processes wait for each other')
                        break
                    self.now = max(self.now, min(nxt))
                    continue
                p = self._pick(r)
                self._resume(p)
                if self.error is not None:
                    raise self.error
        finally:
            self.stopping = True
            for p in self.procs:
                if p.started and p.state != 'done':
                    p.dead = True
                    self._resume(p)
            current_world = None

    def _fire_timers(self):
        while self.timers and self.timers[0][0] <= self.now + 1e-12:
            _, _, fn = self.timers.pop(0)
            fn(self)

    def _pick(self, r):
        pick = self.switches.get(self.nsteps)
        if pick is not None:
            return r[pick % len(r)]
        if self.current in r:
            return self.current
        # default: the process that has waited longest, in spawn order
        return min(r, key=lambda p: (p.wake, self.procs.index(p)))

    def _resume(self, p):
        from . import seams
        if self.current is not p:
            self.sched_trace.update(b'%d>%s;' % (self.nsteps, p.name.encode()))
        self.current = p
        seams.switch_in(p)
        if not p.started:
            p.started = True
            p.thread = threading.Thread(target=self._body, args=(p,), daemon=True)
            p.thread.start()
        else:
            p.sem.release()
        self.main_sem.acquire()
        seams.switch_out(p)

    def _body(self, p):
        from . import seams
        seams.register_thread(p)
        try:
            try:
                if p.dead:
                    raise SimKilled()
                p.result = p.fn(p)
                p.exit_code = 0
            except SimKilled:
                p.exit_code = -9
            except SystemExit as e:
                p.exit_code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except (Violation, StubGap) as e:
                self.error = self.error or e
            except SimHang:
                if p.quiet:
                    self.error = self.error or StubGap('the oracle took too long')
                else:
                    self.error = self.error or Violation('hang', 'endless computation in %s' % p.name)
            except BaseException as e:      # uncaught exception: the process exits with status 1
                p.exc = e
                p.exit_code = 1
                import traceback
                p.quiet += 1
                p.tb = traceback.format_exc()
        finally:
            p.dead = True
            p.state = 'done'
            p.end_time = self.now
            if not self.stopping:
                self.log('exit', p.name, p.exit_code, type(p.exc).__name__ if p.exc else '')
            seams.unregister_thread(p)
            self.main_sem.release()

    def _park(self, p):
        """Give control back to the kernel loop; returns when rescheduled."""
        self.main_sem.release()
        p.sem.acquire()
        if p.dead:
            raise SimKilled()

    # ---------------------------------------------------------------- seam entry points (called on the process's thread)
    def step(self, p, cls, detail='', faultable=True):
        """One seam operation of class cls.  Returns the fault (dict) that applies to this operation, or None."""
        if p.dead:
            raise SimKilled()
        if p.quiet:
            return None
        self.nsteps += 1
        p.nops += 1
        self.now += self.tick
        self.log(p.name, cls, detail)
        if self.nsteps > self.max_steps:
            raise Violation('no-progress', 'more than %d simulated operations' % self.max_steps)
        fault = self._match_fault(p, cls) if faultable else None
        if fault is not None:
            self.hit_at[fault['_id']] = (cls, detail)
        if fault is not None and fault['kind'] == 'kill':
            when = fault.get('when', 'before')
            if when == 'before':
                self.kill_self(p, fault)
        for ob in self.observers:
            p.quiet += 1
            try:
                ob(self, p, cls, detail)
            finally:
                p.quiet -= 1
        if not p.noswitch and self.nsteps in self.switches:
            r = [q for q in self.procs if (q.state == 'ready' and q.wake <= self.now) or (q.state == 'waiting' and q.cond())]
            if len(r) > 1 and r[self.switches[self.nsteps] % len(r)] is not p:
                self.nswitch += 1
                p.wake = self.now
                self._park(p)
        elif self.timers and self.timers[0][0] <= self.now and not p.noswitch:
            self._park(p)
        return fault

    def _match_fault(self, p, cls):
        p.counts[cls] = p.counts.get(cls, 0) + 1
        hit = None
        for key, n in (((p.name, cls), p.counts[cls]), ((p.name, 'op'), p.nops - p.nops_base)):
            lst = self.faults.get(key)
            if not lst:
                continue
            for i, f in lst:
                if i in self.fired_ids and not f.get('sticky'):
                    continue
                if 'op' in f and f['op'] != p.opid:
                    continue
                nth = f['nth']
                if n == nth or (f.get('sticky') and nth <= n < nth + f.get('span', 1 << 30)):
                    if hit is None:
                        hit = (i, f)
        if hit is None:
            return None
        i, f = hit
        return dict(f, _id=i)

    def _match_fault_native(self, p, cls, key='native'):
        """A call into a native library: not a scheduling point, only a place where failures and interruptions can hit."""
        n = p.counts[key] = p.counts.get(key, 0) + 1
        lst = self.faults.get((p.name, key))
        if lst:
            for i, f in lst:
                if f['nth'] == n and i not in self.fired_ids and ('op' not in f or f['op'] == p.opid):
                    return dict(f, _id=i)
        return None

    def fired(self, fault):
        """Record that a fault really took effect."""
        i = fault.get('_id')
        if i is not None and i in self.fired_ids and not fault.get('sticky'):
            return
        if i is not None:
            first = i not in self.fired_ids
            self.fired_ids.add(i)
            if not first:
                return
        self.fault_fired[fault['kind']] = self.fault_fired.get(fault['kind'], 0) + 1
        self.log('FAULT', fault['kind'], fault.get('proc'), fault.get('cls'), fault.get('nth'))

    def count_fault(self, kind, n=1):
        self.fault_fired[kind] = self.fault_fired.get(kind, 0) + n

    def kill_self(self, p, fault=None):
        if fault is not None:
            self.fired(fault)
        p.dead = True
        self.log('KILL', p.name)
        raise SimKilled()

    def kill(self, p):
        """Kill another process (from the kernel or from a different process)."""
        if p.state == 'done':
            return
        p.dead = True
        self.log('KILL', p.name)
        if not p.started:
            p.state = 'done'
            p.exit_code = -9
            return
        p.state, p.wake, p.cond = 'ready', self.now, None

    def sleep(self, p, dt):
        if p.dead:
            raise SimKilled()
        if p.quiet:
            return
        f = self.step(p, 'sleep', '%.6g' % dt)
        if f is not None and f['kind'] == 'interrupt':
            self.fired(f)
            raise KeyboardInterrupt()
        p.wake = self.now + max(0.0, float(dt))
        if self.sleep_hook:
            self.sleep_hook(p, dt)
        self._park(p)

    def wait_until(self, p, cond):
        if p.dead:
            raise SimKilled()
        while not cond():
            p.state, p.cond = 'waiting', cond
            self._park(p)

    def entropy(self, p, n):
        """n private random bytes of the process, a pure function of plan, process and position."""
        out = b''
        while len(out) < n:
            p.ent_ctr += 1
            out += hashlib.blake2b(repr((self.seed, p.entropy, p.ent_ctr)).encode(), digest_size=32).digest()
        return out[:n]

    def wall(self, p):
        t = BASE_EPOCH + self.now + p.host.offset
        return t // self.grain * self.grain if self.grain else t

    def mono(self, p):
        return p.host.boot + self.now


# ------------------------------------------------------------------------------------------------ plan helpers
class PRNG(_random.Random):
    """The generator's random source: one integer decides everything (used to generate plans, never during a run)."""
    def __init__(self, *parts):
        super().__init__(h64(*parts))

    def chance(self, p):
        return self.random() < p

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def wpick(self, pairs):
        tot = sum(w for _, w in pairs)
        x = self.random() * tot
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]


def gen_switches(rng, span, mean_gap, cap=400):
    out, s = [], 0
    if mean_gap is None:
        return out
    while len(out) < cap:
        s += 1 + int(rng.expovariate(1.0 / mean_gap))
        if s > span:
            break
        out.append([s, rng.randrange(1 << 16)])
    return out
