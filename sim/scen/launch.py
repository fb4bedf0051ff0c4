"""Scenario for C15 and C16: users launch experiments, resume them and tune resources, one after the other and at the same
time, while jobs make progress, machines crash, disks fail and launches die half-way.  Every submission that reaches the
(simulated) scheduler is judged against what is on disk at that moment, every command against what it was asked to do.
"""
import calendar
import json
import posixpath
import re
import shlex
import time

from .. import core, harness, loader, shell, world
from ..core import SimKilled, StubGap, Violation, h64

SHRINK = ['groups', 'faults', 'switches']
EXPS = world.REPO_SIM + '/exps'
RES = EXPS + '/results'
SUBMIT, TUNE = 'submit_and_run_experiment_job.py', 'tune_experiment_triples.py'
SCRIPT_OF = {'narrow': 'run_narrow_passage_clearance_trial.py', 'knn': 'run_knn_radius_trial.py', 'line': 'run_straight_line_optimality_trial.py'}
STAMP = re.compile(r'_(\d{8}-\d{6})$')
BAD_CONFIGS = {'missing': None, 'empty': '', 'broken': '{"delta": 0.1,', 'list': '[1, 2]', 'number': '3', 'null': 'null', 'dir': 'dir', 'text': '"abc"', 'bytes': b'\xff\xfe{}'}
GOOD_CONFIGS = {'a': {'delta': 0.1, 'dims_to_test': [2, 3], 'n_trials': 2}, 'b': {'name': 'other', 'triples': [9, 9, 9], 'deltas': [1e-12, 0.30000000000000004]},
                'c': {}, 'd': {'x': {'y': [None, True, 'h\u00e9', 1e300]}, 'sample_schedule': list(range(40))}, 'e': {'name': 'quo"te', 'area_tol': 1e-08}}
NPROC = [1, 2, 4, 8, 16, 24, 32, 48]


# ------------------------------------------------------------------------------------------------ plans
def gen(rng, prop, tier):
    base = rng.pick(['exp', 'knn_run', 'a', 'exp-2', 'exp_20231114-221320', 'e.x', 'exp_'])
    names = [base, base, base, base + '-2', base + '_x', base[:-1] or 'q', base + '_20231114-221321', 'x' + base]
    if rng.chance(0.1):         # names that a shell reads specially
        base = rng.pick(['my exp', 'a;b', '$HOME', "o'neil", 'x&y', '(old)', '#1', '~', 'a`b', '-n 5', 'new\ttab', 'q"x'])
        names = [base, base, base, 'exp', base + ' 2']
    if prop == 'C16' and rng.chance(0.15) or rng.chance(0.03):
        base = rng.pick(['exp[1]', 'e*', 'what?', 'exp[ab]'])
        names = [base, base, base, 'exp1', 'expa', 'ex', 'whatx', base + '2']

    def triple():
        return [rng.pick([1, 2]), rng.pick([1, 4, 8]), rng.pick([1, 2, 6])]

    def launch():
        cfg = rng.pick(sorted(GOOD_CONFIGS)) if rng.chance(0.8 if prop == 'C15' else 0.95) else rng.pick(sorted(BAD_CONFIGS))
        return ['launch', rng.pick(names), rng.pick(['narrow', 'line', 'knn']), cfg, triple(), rng.pick(['.', './', '/abs', '../']) if rng.chance(0.2) else '', rng.chance(0.03)]

    def resume():
        return ['resume', base if rng.chance(0.75) else rng.pick(names), rng.pick(['narrow', 'line', 'knn']), rng.pick(['a', 'missing']), triple()]
    groups = []
    for _ in range(rng.pick([1, 2, 3, 4, 6] if prop == 'C15' else [2, 3, 5, 7, 9])):
        o = rng.wpick([('launch', 6), ('resume', 1.5 if prop == 'C15' else 4), ('tune', 1.2 if prop == 'C15' else 0.1), ('pair', 3 if prop == 'C15' else 1), ('progress', 1 if prop == 'C15' else 4),
                       ('wait', 2), ('clock', 0.7), ('crash', 0.6 if prop == 'C15' else 1.2), ('stray', 0.5 if prop == 'C15' else 1.5)])
        if o == 'launch':
            groups.append([launch()])
        elif o == 'resume':
            groups.append([resume()])
        elif o == 'tune':
            groups.append([['tune', rng.pick(['narrow', 'line', 'knn']), rng.pick(['nppn', 'threads']), rng.pick([1, 2, 4, 8, 16, 24, 32, 48, 49, 5]), rng.pick(['a', 'c', 'd'])]])
        elif o == 'pair':
            g = [launch()]
            for _ in range(rng.pick([1, 1, 2])):
                x = launch() if rng.chance(0.85) or prop == 'C15' else resume()
                if x[0] == 'launch' and rng.chance(0.7):
                    x[1] = g[0][1]
                g.append(x)
            groups.append(g)
        elif o == 'progress':
            groups.append([['progress', rng.randrange(20), rng.pick(['out0.csv', 'out3.csv', 'exp_agg_out.csv', 'submit_job.sh.log-0-1'])]])
        elif o == 'wait':
            groups.append([['wait', rng.pick([0.3, 1.0, 2.5, 70.0, 4000.0, 4000.0, 9000.0, 40000.0, 90000.0, 3e6])]])
        elif o == 'clock':
            groups.append([['clock', rng.pick([-1.0, -3.0, -3600.0, 0.5, 7200.0])]])
        elif o == 'crash':
            groups.append([['crash', rng.randrange(1 << 30)]])
        else:
            groups.append([['stray', rng.pick(names), rng.pick(['emptydir', 'notes', 'nostamp', 'future', 'file', 'confonly']), rng.randrange(1 << 16)]])
        if groups[-1][0][0] not in ('wait', 'clock', 'crash') and rng.chance(0.5):
            groups.append([['wait', rng.pick([1.0, 1.5, 3.0, 100.0])]])
    if prop == 'C16':
        groups.append([resume()])
    plan = {'exec_seed': rng.randrange(1 << 40), 'groups': groups, 'bufsize': rng.pick([16, 64, 8192]), 'dir_order': rng.randrange(1 << 20),
            'clock_grain': rng.pick([0, 0, 1]), 'faults': [], 'prop': prop, 'tick': rng.pick([1e-4, 1e-3, 0.02]),
            'switches': core.gen_switches(rng, 1500, rng.pick([2, 5, 20])) if any(len(g) > 1 for g in groups) else []}
    cmds = [i for i, g in enumerate(x for g in groups for x in g) if g[0] in ('launch', 'resume', 'tune')]
    launches = [i for i, g in enumerate(x for g in groups for x in g) if g[0] == 'launch']
    if launches and rng.chance(0.65):
        for _ in range(rng.pick([1, 1, 2, 3])):
            k = rng.wpick([('kill', 5), ('enospc', 2), ('eio', 2), ('interrupt', 1), ('rc', 2), ('enoent', 1), ('short', 1), ('enomem', 0.5)])
            if prop == 'C16' and k not in ('kill', 'interrupt', 'rc', 'enospc'):
                k = 'kill'
            f = {'proc': 'u%d' % rng.pick(launches), 'kind': k, 'frac': round(rng.random(), 3), 'nth': 1}
            if k == 'kill':
                f.update(cls=rng.pick(['op', 'op', 'write', 'open-w', 'fsync', 'rename', 'exec', 'mkdir']), when=rng.pick(['before', 'mid']))
                if f['cls'] != 'write':
                    f['when'] = 'before'
                f['nth'] = rng.randrange(1, 30) if f['cls'] == 'op' else rng.pick([1, 1, 2, 3])
            elif k in ('rc', 'enoent', 'enomem'):
                f.update(cls='exec', nth=rng.pick([1, 2, 2]))
            elif k == 'short':
                f.update(cls=rng.pick(['write', 'read']), nth=rng.pick([1, 2, 3]))
            else:
                f.update(cls=rng.pick(['write', 'open-w', 'fsync', 'rename', 'mkdir', 'open-r', 'read'] if k != 'enospc' else ['write', 'write', 'open-w', 'mkdir', 'rename']),
                         nth=rng.pick([1, 1, 2, 3]))
                if k == 'enospc' and f['cls'] == 'write' and rng.chance(0.5):
                    f.update(sticky=True, span=1 << 30)
            plan['faults'].append(f)
    return plan


# ------------------------------------------------------------------------------------------------ the run
class Run:
    def __init__(self, plan):
        self.plan, self.prop = plan, plan['prop']
        w = self.w = world.mkworld(plan, tick=plan['tick'], tree=False)
        for f, kind in (('run_narrow_passage_clearance_trial.py', 0), ('run_knn_radius_trial.py', 0), ('run_straight_line_optimality_trial.py', 0)):
            w.fs.put(EXPS + '/' + f, '#\n', durable=False)
        w.fs.makedirs(RES)
        for k, v in BAD_CONFIGS.items():
            if v == 'dir':
                w.fs.makedirs(EXPS + '/config/dir.json')
            elif v is not None:
                w.fs.put(EXPS + '/config/%s.json' % k, v, durable=False)
        for k, v in GOOD_CONFIGS.items():
            w.fs.put(EXPS + '/config/%s.json' % k, json.dumps(v), durable=False)
        w.fs.sync_all()
        w.fs.mutations = 0
        w.subprocess_handler = self.handle
        w.observers.append(self.observe)
        self.owned = {}         # process -> directory names it created
        self.subs = []          # submissions
        self.ctr = 0
        self.made = {}          # directory -> what the clock showed (when its launch began, when it was made)
        self.resuming = {}      # experiment name -> directories that were the right choice since the command began
        self.seen = 0

    def bad(self, cls, detail):
        raise Violation(cls, detail, self.prop)

    # -------------------------------------------------------- watching the disk
    def observe(self, w, p, cls, detail):
        w.fs.writeback(w.fs.clock())
        if self.resuming and w.fs.mutations != self.seen:
            self.seen = w.fs.mutations
            for name, cands in self.resuming.items():
                cands.add(self.expected_resume(name))
        if p.name == 'director' or not hasattr(p, 'cmd'):
            return
        for pend in self.owned.setdefault(p.name, {'dirs': set(), 'try': None})['try'] or []:
            if w.fs.lookup(RES + '/' + pend) is not None:
                self.owned[p.name]['dirs'].add(pend)
        self.owned[p.name]['try'] = None
        if cls in ('mkdir', 'write', 'open-w', 'rename', 'unlink', 'rmdir', 'truncate', 'link', 'chmod'):
            path = posixpath.normpath(detail.rsplit('+', 1)[0] if cls == 'write' else detail)
            if cls == 'mkdir' and posixpath.dirname(path) == RES and w.fs.lookup(path) is None:
                self.owned[p.name]['try'] = [posixpath.basename(path)]
                off = core.BASE_EPOCH + w.host('login').offset
                self.made[posixpath.basename(path)] = (int(off + p.born), int(off + w.now))
            self.touch(p, cls, path)

    def concerns(self, p):
        """Does what this process does wrong break the property under test?"""
        return (p.cmd[0] == 'resume') == (self.prop == 'C16')

    def touch(self, p, cls, path):
        if not self.concerns(p):
            return
        if not path.startswith(RES + '/'):
            if path.startswith(EXPS + '/config'):
                self.bad('wrote-elsewhere', '%s changes %s (%s)' % (self.say(p), path, cls))
            return
        top = path[len(RES) + 1:].split('/')[0]
        if cls == 'mkdir' and path == RES + '/' + top:
            if p.cmd[0] == 'resume':
                self.bad('other-directory', '%s creates %s' % (self.say(p), top))
            return
        if top not in self.owned[p.name]['dirs'] and not (cls == 'chmod' and p.cmd[0] == 'resume'):
            if self.w.fs.lookup(path) is None and cls in ('unlink', 'rmdir', 'rename'):
                return
            self.bad('other-directory', '%s changes %s of a directory it did not create (%s)' % (self.say(p), path[len(RES) + 1:], cls))

    def say(self, p):
        return '%s %s' % (p.name, ' '.join(str(x) for x in p.cmd[:3]))

    # -------------------------------------------------------- programs
    def handle(self, p, args, shell=False, cwd=None, env=None):
        w = self.w
        sh = shell
        from .. import shell as mini
        cwd = posixpath.normpath(posixpath.join(p.cwd, cwd)) if cwd else p.cwd
        a = mini.words(args, dict(p.env)) if isinstance(args, str) else [str(x) for x in args]
        if not sh and isinstance(args, str) and len(a) > 1:
            raise FileNotFoundError(2, 'No such file or directory', args)
        prog = posixpath.basename(a[0])
        if prog == 'chmod':
            files = [x for x in a[2:] if not x.startswith('-')]
            for f in files:
                f = posixpath.normpath(posixpath.join(cwd, f))
                n = w.fs.lookup(f)
                if n is None:
                    return 1, '', 'chmod: cannot access %s\n' % f
                if hasattr(p, 'cmd') and p.name in self.owned:
                    self.touch(p, 'chmod', f)
                m = a[1]
                if re.fullmatch(r'[ugoa]*\+[rwx]+', m):
                    n.mode |= 0o100 if 'x' in m else 0
                elif re.fullmatch(r'[0-7]+', m):
                    n.mode = int(m, 8)
                else:
                    raise StubGap('chmod %s' % m)
            return 0, '', ''
        if prog in ('python', 'python3') or prog.startswith('python3.'):
            opts = [x for x in a[1:] if x in ('-u', '-B', '-O')]
            a = [a[0]] + [x for x in a[1:] if x not in opts]
            target = posixpath.basename(a[1])
            if target != SUBMIT or posixpath.normpath(posixpath.join(cwd, a[1])) != EXPS + '/' + SUBMIT:
                return 2, '', "python: can't open file %s\n" % a[1]
            self.ctr += 1
            c = self.start('%s.%d' % (p.name, self.ctr), a[1:], cwd, ['launch', '?'], p)
            w.wait_until(p, lambda: c.finished)
            w.log('nested', a[1:], c.exit_code)
            return c.exit_code, c.output(), ''
        if prog == 'LLsub':
            return self.llsub(p, a[1:], cwd)
        if prog in ('mkdir', 'cp', 'touch', 'mv', 'rm'):
            raise StubGap('program %s' % prog)
        return 127, '', '%s: command not found\n' % prog

    def llsub(self, p, a, cwd):
        w = self.w
        w.log('LLsub', a)
        if not self.concerns(p):
            trip = [int(x) for x in re.findall(r'\d+', a[1])] if len(a) > 1 else None
            self.subs.append({'proc': p.name, 'path': '', 'dir': '', 'triple': trip, 'text': None, 'cwd': cwd})
            return 0, 'Submitted batch job 1\n', ''
        if len(a) != 2 or not re.fullmatch(r'\[\s*\d+\s*,\s*\d+\s*,\s*\d+\s*\]', a[1]):
            self.bad('submission', '%s submits with unusable arguments %s' % (self.say(p), a))
        path = posixpath.normpath(posixpath.join(cwd, a[0]))
        node = w.fs.lookup(path)
        trip = [int(x) for x in re.findall(r'\d+', a[1])]
        s = {'proc': p.name, 'path': path, 'dir': posixpath.dirname(path), 'triple': trip, 'text': w.fs.get(path), 'cwd': cwd}
        self.subs.append(s)
        if node is None or node.kind != 'file':
            self.bad('submission', '%s submits %s, which does not exist' % (self.say(p), path))
        if not node.mode & 0o100:
            self.bad('submission', '%s submits a script that is not executable' % self.say(p))
        if p.cmd[0] == 'launch':
            self.check_launch_submission(p, s)
        w.probe('submitted')
        return 0, 'Submitted batch job 1\n', ''

    def command(self, p):
        """What the process was asked to do: {name, kind, config document or None, triple}"""
        av = p.argv[1:]
        d = {}
        i = 0
        while i < len(av):
            if av[i] == '--triples-args':
                d['triple'] = [int(x) for x in av[i + 1:i + 4]]
                i += 4
            elif av[i] == '--resume':
                i += 1
            else:
                d[av[i].lstrip('-')] = av[i + 1]
                i += 2
        f = posixpath.normpath(posixpath.join(p.cwd, d['config-path']))
        data = self.w.fs.get(f)
        try:
            doc = json.loads(data.decode()) if data is not None else None
        except ValueError:
            doc = None
        d['doc'] = doc if isinstance(doc, dict) else None
        return d

    def complete(self, path, text=None):
        """Is this directory a completely set up experiment?  -> its configuration, or None"""
        data = self.w.fs.get(path + '/config.json')
        try:
            doc = json.loads(data.decode())
        except (AttributeError, ValueError):
            return None
        if not isinstance(doc, dict) or 'triples' not in doc:
            return None
        return doc

    def job(self, s):
        """What the submitted script would run: [(script path, rank, size, config path, directory, import directories)]"""
        out = []
        env = {'LLSUB_RANK': '0', 'LLSUB_SIZE': '7', 'USER': 'u', 'PYTHONPATH': '/opt/py', 'HOME': '/home/user'}

        def launch(argv, env, cwd):
            if not re.fullmatch(r'(.*/)?python[\d.]*', argv[0]):
                raise StubGap('job script runs %s' % argv[0])
            a = [x for x in argv[1:] if x not in ('-u', '-B', '-O')]
            full = [posixpath.normpath(posixpath.join(cwd, x)) for x in a]
            out.append((full[0] if full else None, a[1:3], full[3:], [posixpath.normpath(posixpath.join(cwd, x)) for x in env.get('PYTHONPATH', '').split(':') if x]))
        shell.run_script(s['text'].decode(errors='replace'), env, s['cwd'], launch, ls=self.w.fs.ls)
        return out

    def check_launch_submission(self, p, s):
        """Whatever is submitted by a launch must be complete at that moment."""
        c = self.command(p)
        d = s['dir']
        who = self.say(p)
        if posixpath.dirname(d) != RES or posixpath.basename(d) not in self.owned.get(p.name, {'dirs': ()})['dirs']:
            self.bad('submission', '%s submits a script in %s, which is not a directory it created' % (who, d))
        if not re.fullmatch(re.escape(c['name']) + r'_\d{8}-\d{6}', posixpath.basename(d)):
            self.bad('directory-name', '%s: the directory is called %s' % (who, posixpath.basename(d)))
        if c['doc'] is None:
            self.bad('submitted-without-config', '%s submits a job although its configuration %s is missing or unusable' % (who, c['config-path']))
        if s['triple'] != c['triple']:
            self.bad('triple', '%s submits with %s instead of %s' % (who, s['triple'], c['triple']))
        data = self.w.fs.get(d + '/config.json')
        try:
            got = json.loads(data.decode())
        except (AttributeError, ValueError):
            got = None
        want = dict(c['doc'], name=c['name'], triples=c['triple'])
        if got != want:
            self.bad('config', '%s: config.json holds %s, expected %s' % (who, str(got)[:120], str(want)[:120]))
        runs = self.job(s)
        want = [EXPS + '/' + SCRIPT_OF[c['type']], ['0', '7'], [d + '/config.json', d]]
        if len(runs) != 1 or list(runs[0][:3]) != want:
            self.bad('job-script', '%s: the job script runs %s instead of %s' % (who, [list(r[:3]) for r in runs], want))
        if world.REPO_SIM not in runs[0][3]:
            self.bad('job-script', '%s: the job script does not put the repository on PYTHONPATH (%s)' % (who, runs[0][3]))
        if sum(x['proc'] == p.name for x in self.subs) > 1:
            self.bad('submitted-twice', '%s submits more than once' % who)
        self.w.probe('launch-submission')
        self.w.cover.add(h64(c['type'], c['triple'], sorted(c['doc'])))

    # -------------------------------------------------------- commands
    def start(self, name, argv, cwd, cmd, parent=None):
        script = EXPS + '/' + posixpath.basename(argv[0])
        p = self.w.spawn(name, lambda p: loader.run_script(p, script), host='login', argv=argv, cwd=cwd, import_dirs=[EXPS, world.REPO_SIM], env={'USER': 'u'})
        p.cmd, p.born = cmd, self.w.now
        if parent is not None:
            p.parent = parent
            parent.children.append(p)
        return p

    def argv(self, c):
        if c[0] == 'tune':
            return [TUNE, '--type', c[1], '--config-path', './config/%s.json' % c[4], '--triple-to-test', c[2], '--other-arg-fill-in', str(c[3])]
        pre = {'.': './config', './': 'config/', '/abs': EXPS + '/config', '../': '../exps/config'}.get(c[5] if c[0] == 'launch' else '', './config')
        av = [SUBMIT, '--type', c[2], '--name', c[1], '--config-path', '%s/%s.json' % (pre, c[3]), '--triples-args'] + [str(x) for x in c[4]]
        return av + (['--resume'] if c[0] == 'resume' else [])

    def faulted(self, name):
        return [f for i, f in enumerate(self.plan['faults']) if f['proc'] == name and i in self.w.fired_ids and f['kind'] != 'short']

    def expected_resume(self, name):
        """The directory that resuming this name must choose now, or None."""
        have = {}
        for d in self.w.fs.ls(RES):
            m = STAMP.search(d)
            if not m or d[:m.start()] != name:
                continue
            if self.usable(RES + '/' + d):
                t = calendar.timegm(time.strptime(m.group()[1:], '%Y%m%d-%H%M%S')) if d not in self.made else 0
                have[d] = self.made.get(d, (t, t))
        if not have:
            return None
        last = max(lo for lo, hi in have.values())
        return max(d for d, (lo, hi) in have.items() if hi >= last)     # (the names tell launches of the same second apart)

    def usable(self, path):
        doc = self.complete(path)
        text = self.w.fs.get(path + '/submit_job.sh')
        if doc is None or not text:
            return False
        try:
            runs = self.job({'text': text, 'cwd': EXPS})
        except StubGap:
            return False
        return len(runs) == 1 and runs[0][1] == ['0', '7'] and runs[0][2] == [path + '/config.json', path] and runs[0][0] in [EXPS + '/' + x for x in SCRIPT_OF.values()]

    def director(self, up):
        w = self.w
        n = 0
        for g in self.plan['groups']:
            w.now += 0.001
            if g[0][0] not in ('launch', 'resume', 'tune'):
                self.world_event(g[0])
                n += len(g)
                continue
            before = w.fs.tree(RES)
            nsub = len(self.subs)
            procs = []
            for c in g:
                cwd = EXPS if not (c[0] == 'launch' and c[6]) else world.REPO_SIM
                p = self.start('u%d' % n, self.argv(c), cwd, c)
                n += 1
                procs.append(p)
            self.resuming = {p.cmd[1]: {self.expected_resume(p.cmd[1])} for p in procs if p.cmd[0] == 'resume'}
            w.wait_until(up, lambda: all(p.finished and all(q.finished for q in p.children) for p in procs))
            # processes killed while a child of theirs runs are joined above
            for p in procs:
                mine = [s for s in self.subs[nsub:] if s['proc'] == p.name]
                w.log('done', p.name, p.cmd[0], p.exit_code, len(mine))
                if self.concerns(p):
                    getattr(self, 'after_' + p.cmd[0])(p, mine, before)
            new = set(self.dirnames(w.fs.tree(RES))) - set(self.dirnames(before))
            owned = set()
            for p in procs:
                for q in [p] + p.children:
                    o = self.owned.get(q.name)
                    if o:
                        owned |= o['dirs'] | set(o['try'] or [])
            if new - owned:
                raise RuntimeError('director: directories of unknown origin %s' % (new - owned))
            after = w.fs.tree(RES)
            for f, data in before.items():
                if f.split('/')[0] in owned:
                    continue
                if (f not in after or after[f] != data) and all(self.concerns(p) for p in procs):
                    self.bad('other-directory', 'after %s: %s was %s' % ([self.say(p) for p in procs], f, 'removed' if f not in after else 'changed'))

    @staticmethod
    def dirnames(tree):
        return [k for k in tree if '/' not in k]

    def after_launch(self, p, mine, before):
        ok = p.exit_code == 0
        flt = self.faulted(p.name)
        c = self.command(p)
        if ok and not mine:
            self.bad('not-submitted', '%s reports success, but nothing was submitted' % self.say(p))
        if ok and any(f['cls'] == 'exec' and f['kind'] in ('rc', 'enoent', 'enomem') for f in flt):
            self.bad('success-claimed', '%s reports success although a program it ran failed' % self.say(p))
        if mine and not ok and not flt:
            self.bad('submitted-but-failed', '%s submitted its job, yet ends with status %s' % (self.say(p), p.exit_code))
        if mine and any(f['kind'] in ('enospc', 'eio') and f['cls'] in ('write', 'open-w', 'rename', 'mkdir', 'fsync') for f in flt):
            self.bad('submitted-after-storage-failure', '%s submits its job although storing the experiment failed' % self.say(p))
        owned = self.owned.get(p.name, {'dirs': set()})['dirs']
        if not ok and not flt and c['doc'] is not None and p.cwd == EXPS and owned:
            self.bad('launch-failed', '%s ends with status %s although nothing failed: %s' % (self.say(p), p.exit_code, p.output()[-200:]))
        if not ok and not flt and c['doc'] is not None and p.cwd == EXPS and not owned:
            # only a directory of the same name and second may be in the way
            if not any(d.startswith(c['name'] + '_') for d in self.w.fs.ls(RES)):
                self.bad('launch-failed', '%s ends with status %s although nothing failed: %s' % (self.say(p), p.exit_code, p.output()[-200:]))
            self.w.probe('collision')
        if ok:
            self.w.probe('launched')

    def after_tune(self, p, mine, before):
        kind, which, fill = p.cmd[1], p.cmd[2], p.cmd[3]
        want = [[1, fill, v] if which == 'threads' else [1, v, fill] for v in NPROC if v * fill <= 48]
        subs = [s for s in self.subs if s['proc'].startswith(p.name + '.')]
        got = sorted(s['triple'] for s in subs)
        if any(got.count(x) > 1 for x in got) or any(x not in want for x in got):
            self.bad('tuning', '%s launches %s, admissible settings are %s' % (self.say(p), got, want))
        flt = self.faulted(p.name) or any(self.faulted(q.name) for q in p.children)
        stuck = any(q.exit_code for q in p.children)
        if not flt and not stuck and got != sorted(want):
            self.bad('tuning', '%s launches %s, admissible settings are %s' % (self.say(p), got, want))
        if not flt and stuck and not any(d.startswith(kind + '-triples-tune') or 'tune' in d for d in self.dirnames(before)):
            self.bad('tuning', '%s: a launch failed although nothing was in its way: %s' % (self.say(p), [q.output()[-120:] for q in p.children if q.exit_code]))
        for s in subs:
            q = [x for x in p.children if x.name == s['proc']][0]
            if self.command(q)['type'] != kind:
                self.bad('tuning', '%s launches a %s experiment' % (self.say(p), self.command(q)['type']))
            if posixpath.basename(self.command(q)['config-path']) != p.cmd[4] + '.json':
                self.bad('tuning', '%s launches with configuration %s' % (self.say(p), self.command(q)['config-path']))
            if not self.command(q)['name'].endswith('%d-%d-%d' % tuple(s['triple'])):
                self.bad('tuning', '%s launches the setting %s under the name %s' % (self.say(p), s['triple'], self.command(q)['name']))
        dirs = [s['dir'] for s in subs]
        if len(set(dirs)) != len(dirs):
            self.bad('tuning', '%s: two settings share a directory' % self.say(p))
        self.w.probe('tuned')

    def after_resume(self, p, mine, before):
        ok = p.exit_code == 0
        flt = self.faulted(p.name)
        name = p.cmd[1]
        cands = self.resuming[name] | {self.expected_resume(name)}
        if len(mine) > 1:
            self.bad('submitted-twice', '%s submits %d jobs' % (self.say(p), len(mine)))
        if ok and not mine:
            self.bad('not-submitted', '%s reports success, but nothing was submitted' % self.say(p))
        if ok and any(f['cls'] == 'exec' for f in flt):
            self.bad('success-claimed', '%s reports success although a program it ran failed' % self.say(p))
        if not mine and not flt and None not in cands:
            self.bad('not-resumed', '%s: %s is complete, but nothing is submitted (status %s, %s)' % (self.say(p), sorted(cands), p.exit_code, p.output()[-160:]))
        for s in mine:
            d = posixpath.basename(s['dir'])
            if posixpath.dirname(s['dir']) != RES or d not in cands:
                self.bad('wrong-experiment', '%s submits %s; the latest complete experiment of that name is %s' % (self.say(p), d, sorted(str(x) for x in cands)))
            doc = self.complete(s['dir'])
            if s['triple'] != doc['triples']:
                self.bad('triple', '%s submits with %s, launched with %s' % (self.say(p), s['triple'], doc['triples']))
            if s['path'] != s['dir'] + '/submit_job.sh':
                self.bad('wrong-script', '%s submits %s' % (self.say(p), s['path']))
            rel = d + '/submit_job.sh'
            if rel in before and s['text'] != before[rel]:
                self.bad('script-changed', '%s submits a changed script' % self.say(p))
            self.w.probe('resumed')
        self.w.cover.add(h64('resume', len(before), sorted(str(x) for x in cands), bool(mine)))

    def world_event(self, e):
        w = self.w
        k = e[0]
        if k == 'wait':
            w.now += e[1]
            w.fs.writeback(w.fs.clock())
        elif k == 'clock':
            w.host('login').offset += e[1]
            w.count_fault('clock-jump')
        elif k == 'crash':
            ctr = [0]

            def pick(label, n):
                ctr[0] += 1
                return h64(e[1], label, ctr[0]) % n
            desc = w.fs.crash(pick)
            w.count_fault('machine-crash')
            w.log('CRASH', desc)
        elif k == 'progress':
            ds = [d for d in w.fs.ls(RES) if self.usable(RES + '/' + d)]
            if ds:
                d = ds[e[1] % len(ds)]
                w.fs.put(RES + '/' + d + '/' + e[2], ',a\n0,%d\n' % w.nsteps, durable=False)
                w.probe('progress')
        elif k == 'stray':
            name, what, salt = e[1], e[2], e[3]
            now = time.strftime('%Y%m%d-%H%M%S', time.gmtime(core.BASE_EPOCH + w.now + w.host('login').offset + 5 + salt % 50))
            if what == 'emptydir':
                w.fs.makedirs(RES + '/%s_%s' % (name, now))
            elif what == 'confonly':
                w.fs.put(RES + '/%s_%s/config.json' % (name, now), json.dumps({'name': name, 'triples': [3, 3, 3]}), durable=False)
            elif what == 'notes':
                w.fs.put(RES + '/%s_notes/readme.txt' % name, 'x', durable=False)
            elif what == 'nostamp':
                w.fs.put(RES + '/%s/config.json' % name, json.dumps({'name': name, 'triples': [3, 3, 3]}), durable=False)
            elif what == 'file':
                if w.fs.lookup(RES + '/%s_summary.csv' % name) is None:
                    w.fs.put(RES + '/%s_summary.csv' % name, 'x', durable=False)
            elif what == 'future':
                w.fs.makedirs(RES + '/%s_%s' % (name, '20991231-000000'))

    def run(self):
        w = self.w
        w.spawn('director', self.director, host='home')
        w.run()
        u = [p for p in w.procs if p.name == 'director'][0]
        if u.exc is not None:
            raise RuntimeError('director: %s' % u.tb)
        return w


def run(plan):
    return Run(plan).run()
