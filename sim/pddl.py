"""A small task planner for the robot experiments' own domain and stream files.

It stands in for pddlstream: actions, derived predicates and streams are read from the text the problem carries; motions are
first assumed to exist, the plan found under that assumption is then bound by calling the problem's stream functions in plan
order with the facts that hold at that moment, and a stream that fails is asked again with the next plan.
"""
import re
from collections import deque

from . import seams
from .core import StubGap


def parse(text):
    text = re.sub(r';[^\n]*', '', text).lower()
    toks = re.findall(r'[()]|[^\s()]+', text)
    out, stack = [], []
    for t in toks:
        if t == '(':
            stack.append([])
        elif t == ')':
            x = stack.pop()
            (stack[-1] if stack else out).append(x)
        else:
            stack[-1].append(t)
    if stack:
        raise ValueError('unbalanced parentheses')
    return out[0]


def keyed(xs):
    return {xs[i]: xs[i + 1] for i in range(0, len(xs) - 1, 2)}


def conj(f):
    if not f:
        return []
    if f[0] == 'and':
        return [y for x in f[1:] for y in conj(x)]
    return [f]


class Action:
    def __init__(self, name, d):
        self.name, self.params = name, [x for x in d.get(':parameters', []) if x.startswith('?')]
        self.pre = conj(d.get(':precondition', []))
        self.add, self.rem = [], []
        for e in conj(d.get(':effect', [])):
            if e[0] == 'not':
                self.rem.append(e[1])
            elif e[0] in ('increase', 'decrease', 'assign'):
                continue
            elif e[0] in ('when', 'forall'):
                raise StubGap('task planner: effect %s' % e[0])
            else:
                self.add.append(e)


class Stream:
    def __init__(self, name, d):
        self.name = name
        self.inputs, self.outputs = d.get(':inputs', []), d.get(':outputs', [])
        self.domain, self.certified = conj(d.get(':domain', [])), conj(d.get(':certified', []))
        self.fluents = d.get(':fluents', [])


class Wish:
    """The output of a stream that has not been called yet."""

    def __init__(self, stream, args, k):
        self.stream, self.args, self.k = stream, args, k


class Task:
    def __init__(self, problem, rng, call, detours=0):
        self.rng, self.call, self.detours = rng, call, detours
        dom, st = parse(problem.domain_pddl), parse(problem.stream_pddl)
        self.actions, self.derived = [], {}
        for x in dom:
            if x[0] == ':action':
                self.actions.append(Action(x[1], keyed(x[2:])))
            elif x[0] == ':derived':
                self.derived.setdefault(x[1][0], []).append((x[1][1:], x[2]))
            elif x[0] not in ('define', 'domain', ':requirements', ':predicates', ':constants', ':types', ':functions') and isinstance(x, list):
                raise StubGap('task planner: %s' % x[0])
        self.streams = []
        for x in st:
            if isinstance(x, list) and x[0] == ':stream':
                self.streams.append(Stream(x[1], keyed(x[2:])))
        self.objects, self.tokens = [], {}
        self.last = (None, None)
        self.orders, self.conjs, self.memo = {}, {}, {}
        changing = {a[0] for act in self.actions for a in act.add + act.rem}
        facts = [self.fact(f) for f in problem.init]
        self.state = frozenset(f for f in facts if f[0] in changing)
        self.changing = changing
        self.static, self.index = set(), {}
        for f in facts:
            if f[0] not in changing:
                self.know(f)
        goal = problem.goal
        self.goals = [self.fact(g) for g in goal[1:]] if goal[0] == 'and' else [self.fact(goal)]
        self.eager()

    # ---------------------------------------------------------------- facts
    def key(self, o):
        if isinstance(o, str):
            raise StubGap('task planner: constant %r' % o)
        k = ('int', int(o)) if isinstance(o, int) else ('obj', id(o))
        if k not in self.tokens:
            self.tokens[k] = len(self.objects)
            self.objects.append(o)          # (held, so that its id stays its own)
        return self.tokens[k]

    def fact(self, f):
        return (f[0].lower(),) + tuple(self.key(o) for o in f[1:])

    def show(self, f):
        return (f[0],) + tuple(self.objects[o] for o in f[1:])

    def know(self, f):
        if f not in self.static:
            self.static.add(f)
            self.index.setdefault(f[0], []).append(f)
            for i, a in enumerate(f[1:]):
                self.index.setdefault((f[0], i, a), []).append(f)

    def facts(self, state):
        if self.last[0] is not state:
            by = {}
            for f in sorted(state):
                by.setdefault(f[0], []).append(f)
            self.last = (state, by)
        return self.last[1]

    def match(self, atom, b, state):
        """Bindings that extend b and make the atom true."""
        name, args = atom[0], atom[1:]
        if name in self.derived:
            for head, body in self.derived[name]:
                inner = {h: b[a] for h, a in zip(head, args) if a in b}
                for r in self.sat(self.conj(body), inner, state):
                    e = dict(b)
                    if all(e.setdefault(a, r[h]) == r[h] for h, a in zip(head, args)):
                        yield e
            return
        if name in self.changing:
            cand = self.facts(state).get(name, ())
        else:
            cand = self.index.get(name, ())
            for i, a in enumerate(args):
                if a in b:
                    c = self.index.get((name, i, b[a]), ())
                    if len(c) < len(cand):
                        cand = c
        for f in cand:
            if len(f) - 1 != len(args):
                continue
            e = None
            for a, v in zip(args, f[1:]):
                w = (e or b).get(a)
                if w is None:
                    if e is None:
                        e = dict(b)
                    e[a] = v
                elif w != v:
                    break
            else:
                yield e if e is not None else b

    def order(self, parts, bound):
        """The parts in an order that binds variables early."""
        key = (seams.REAL['id'](parts), tuple(sorted(bound)))
        if key in self.orders:
            return self.orders[key][0]
        known, todo, out = set(bound), list(parts), []

        def names(f):
            return {y for x in f[1:] for y in (names(x) if isinstance(x, list) else [x] if x.startswith('?') else [])}

        def rank(f):
            free = len(names(f) - known)
            if f[0] in ('not', '='):
                return 99 if free else -1
            if f[0] in ('exists', 'forall', 'imply', 'or'):
                return 50
            return (0 if f[0] in self.changing else 2 if free < len(f) - 1 else 10) + free / 10
        while todo:
            f = min(todo, key=rank)
            todo = [x for x in todo if x is not f]
            out.append(f)
            known |= names(f)
        self.orders[key] = (out, parts)
        return out

    def sat(self, parts, b, state):
        """Bindings that extend b and make all parts true."""
        yield from self._sat(self.order(parts, b), 0, b, state)

    def _sat(self, parts, i, b, state):
        if i == len(parts):
            yield b
            return
        f = parts[i]
        if f[0] == 'not':
            if next(self.sat(self.conj(f[1]), b, state), None) is None:
                yield from self._sat(parts, i + 1, b, state)
        elif f[0] == '=':
            x, y = b.get(f[1]), b.get(f[2])
            if x is not None and x == y:
                yield from self._sat(parts, i + 1, b, state)
        elif f[0] == 'or':
            for g in f[1:]:
                for e in self.sat(self.conj(g), b, state):
                    yield from self._sat(parts, i + 1, e, state)
        elif f[0] == 'exists':
            mine = {k: v for k, v in b.items() if k not in f[1]}
            for e in self.sat(self.conj(f[2]), mine, state):
                e = {k: v for k, v in e.items() if k not in f[1]}
                e.update({k: b[k] for k in f[1] if k in b})
                yield from self._sat(parts, i + 1, e, state)
        elif f[0] in ('forall', 'imply'):
            raise StubGap('task planner: %s' % f[0])
        else:
            for e in self.match(f, b, state):
                yield from self._sat(parts, i + 1, e, state)

    def conj(self, f):
        k = seams.REAL['id'](f)
        if k not in self.conjs:
            self.conjs[k] = (conj(f), f)
        return self.conjs[k][0]

    # ---------------------------------------------------------------- streams
    def eager(self):
        """Outputs that other streams need are sampled at once, the others are assumed."""
        needs = {a[0] for s in self.streams for a in s.domain}
        first = [s for s in self.streams if not s.fluents and any(c[0] in needs for c in s.certified)]
        for s in first:
            for args in self.instances(s):
                out = self.call(s.name, [self.objects[a] for a in args], None)
                if out is None:
                    continue
                b = dict(zip(s.inputs, args))
                b.update({o: self.key(v) for o, v in zip(s.outputs, out)})
                for c in s.certified:
                    self.know((c[0],) + tuple(b[x] for x in c[1:]))
        for s in self.streams:
            if s not in first:
                for args in self.instances(s):
                    b = dict(zip(s.inputs, args))
                    b.update({o: self.key(Wish(s, args, k)) for k, o in enumerate(s.outputs)})
                    for c in s.certified:
                        self.know((c[0],) + tuple(b[x] for x in c[1:]))

    def instances(self, s):
        seen = []
        for b in self.sat(s.domain, {}, self.state):
            args = tuple(b[x] for x in s.inputs)
            if args not in seen:
                seen.append(args)
        return seen

    # ---------------------------------------------------------------- search
    def search(self, state, goals, limit=30000):
        """A shortest plan: [(action, binding)], or None."""
        def done(s):
            return all(self.true(g, s) for g in goals)
        if done(state):
            return []
        frontier, seen = deque([(state, None)]), {state}
        while frontier:
            s, path = frontier.popleft()
            for a, b in self.steps(s):
                n = self.apply(a, b, s)
                if n in seen:
                    continue
                seen.add(n)
                if len(seen) > limit:
                    raise StubGap('task planner: too many states')
                q = ((a, b), path)
                if done(n):
                    out = []
                    while q:
                        out.append(q[0])
                        q = q[1]
                    return out[::-1]
                frontier.append((n, q))
        return None

    def true(self, g, s):
        vs = ['?g%d' % i for i in range(len(g) - 1)]
        return next(self.match([g[0]] + vs, dict(zip(vs, g[1:])), s), None) is not None

    def apply(self, a, b, s):
        return frozenset(s - {tuple([x[0]] + [b[v] for v in x[1:]]) for x in a.rem} | {tuple([x[0]] + [b[v] for v in x[1:]]) for x in a.add})

    def solve(self, goals, attempts=6):
        """[(name, args with real objects, state before)] for the goals, reached one after the other; None and why not."""
        for _ in range(attempts):
            s, plan = self.state, []
            for i in range(len(goals)):
                more = None
                if self.rng.random() * 100 < self.detours:
                    walk, t = self.wander(s)
                    more = self.search(t, goals[:i + 1], 4000)
                    more = None if more is None else walk + more
                    done = {o for g in goals[:i] for o in g[1:]}
                    if more is not None and any(v in done for a, b in more for v in b.values()):
                        more = None         # (it would undo what has been reached)
                if more is None:
                    more = self.search(s, goals[:i + 1])
                if more is None:
                    return None, 'stuck', goals[i]
                for a, b in more:
                    plan.append((a, b, s))
                    s = self.apply(a, b, s)
            got = self.bind(plan)
            if got is not None:
                return got, 'ok', None
        return None, 'failed', None

    def steps(self, s):
        if s not in self.memo:
            self.memo[s] = [(a, b) for a in self.actions for b in self.sat(a.pre, {}, s) if all(p in b for p in a.params)]
        out = list(self.memo[s])
        self.rng.shuffle(out)
        return out

    def wander(self, s):
        """A few steps nobody needs (a plan need not be a shortest one)."""
        walk = []
        for _ in range(self.rng.randrange(1, 7)):
            names = sorted({a.name for a, _ in self.steps(s)})
            if not names:
                break
            name = names[self.rng.randrange(len(names))]
            a, b = next((a, b) for a, b in self.steps(s) if a.name == name)
            walk.append((a, b))
            s = self.apply(a, b, s)
        return walk, s

    def bind(self, plan):
        """The plan with the streams' outputs, asked for in any order; None if a stream fails."""
        made, want = {}, []
        for n, (a, b, s) in enumerate(plan):
            for p in a.params:
                w = self.objects[b[p]]
                if isinstance(w, Wish):
                    fl = None
                    if w.stream.fluents:
                        fl = [(f[0],) + tuple(self.objects[o] for o in f[1:]) for f in sorted(s) if f[0] in w.stream.fluents]
                        self.rng.shuffle(fl)
                    want.append(((w.stream.name, w.args, n if fl is not None else None), w, fl))
        self.rng.shuffle(want)
        for k, w, fl in want:
            if k not in made:
                res = self.call(w.stream.name, [self.objects[x] for x in w.args], fl)
                if res is None:
                    return None
                made[k] = tuple(res)
        out = []
        for n, (a, b, s) in enumerate(plan):
            args = []
            for p in a.params:
                w = self.objects[b[p]]
                args.append(made[w.stream.name, w.args, n if w.stream.fluents else None][w.k] if isinstance(w, Wish) else w)
            out.append((a.name, tuple(args), s))
        return out
