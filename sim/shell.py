"""A small shell: enough of the language to read the command lines and job scripts that the repository writes.

Nothing real is ever started.  Programs go to a callback; the clock, the working directory and the environment are the
simulated process's.  Whatever the shell does not understand is a gap (StubGap), never a verdict.
"""
import fnmatch
import glob
import posixpath
import re
import shlex
import time

from .core import StubGap


# ------------------------------------------------------------------------------------------------ simple command lines
def expand(text, env):
    """Variables, and command substitutions that only echo or print the working directory (quotes are kept)."""
    def sub(m):
        inner = m.group(1) if m.group(1) is not None else m.group(2)
        w = shlex.split(expand(inner, env))
        if w[:1] == ['echo']:
            return ' '.join(w[1:])
        if w[:1] == ['whoami'] or w[:2] == ['id', '-un']:
            return env.get('USER', '')
        if w[:1] == ['pwd']:
            return env.get('PWD', '')
        raise StubGap('shell: command substitution %r' % inner)
    text = re.sub(r'`([^`]*)`|\$\(([^()]*)\)', sub, text)

    def var(m):
        return env.get(m.group(1) or m.group(2), '')
    out, single = [], False
    for part in re.split(r"(')", text):
        if part == "'":
            single = not single
            out.append(part)
        else:
            out.append(part if single else re.sub(r'\$(?:(\w+)|\{(\w+)\})', var, part))
    return ''.join(out)


def words(line, env):
    try:
        return shlex.split(expand(line, env), comments=True)
    except ValueError as e:
        raise StubGap('shell: %s in %r' % (e, line))


# ------------------------------------------------------------------------------------------------ reading
OPS = ['<<<', '&&', '||', ';;', '>>', '<<', '>&', '&>', '<&', '|', '&', ';', '(', ')', '<', '>', '\n']
RESERVED = {'if', 'then', 'elif', 'else', 'fi', 'for', 'while', 'until', 'do', 'done', 'case', 'esac', 'in', '{', '}', '!', 'function'}
NAME = re.compile(r'[A-Za-z_]\w*\Z')


class _Bad(Exception):
    pass


def _closing(s, i, op, cl):
    """Index just after the closer that matches the opener before i (quotes are respected)."""
    depth = 1
    while i < len(s):
        c = s[i]
        if c == '\\':
            i += 2
            continue
        if c == "'":
            i = s.index("'", i + 1) + 1
            continue
        if c == '"':
            i = _dquote_end(s, i + 1)
            continue
        if s.startswith(op, i):
            depth += 1
        elif s.startswith(cl, i):
            depth -= 1
            if not depth:
                return i + len(cl)
        i += 1
    raise _Bad('no %s' % cl)


def _dquote_end(s, i):
    while i < len(s):
        if s[i] == '\\':
            i += 2
        elif s[i] == '"':
            return i + 1
        elif s.startswith('$(', i):
            i = _closing(s, i + 2, '(', ')')
        elif s[i] == '`':
            i = s.index('`', i + 1) + 1
        else:
            i += 1
    raise _Bad('no closing quote')


def _dollar(s, i):
    """A substitution that starts at s[i] == '$': (part or None, next index)."""
    if s.startswith('$((', i):
        j = _closing(s, i + 2, '(', ')')
        if s[j - 2] == ')':
            return ('arith', parse_word(s[i + 3:j - 2], True)), j
    if s.startswith('$(', i):
        j = _closing(s, i + 2, '(', ')')
        return ('cmd', s[i + 2:j - 1]), j
    if s.startswith('${', i):
        j = _closing(s, i + 2, '{', '}')
        return ('param', s[i + 2:j - 1]), j
    m = re.compile(r'\$([A-Za-z_]\w*|[0-9@*#?$!-])').match(s, i)
    if m:
        return ('var', m.group(1)), m.end()
    return None, i + 1


def parse_word(s, quoted=False):
    """Parts of a word: ('lit', text, quoted), ('var', name), ... each with a flag telling whether it is quoted."""
    parts, i, lit = [], 0, ''

    def flush(q):
        nonlocal lit
        if lit:
            parts.append(('lit', lit, q))
        lit = ''
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            if quoted and s[i + 1] not in '$`"\\\n':
                lit += c
                i += 1
                continue
            flush(quoted)
            if s[i + 1] != '\n':
                parts.append(('lit', s[i + 1], True))
            i += 2
        elif c == "'" and not quoted:
            j = s.index("'", i + 1)
            flush(quoted)
            parts.append(('lit', s[i + 1:j], True))
            i = j + 1
        elif c == '"' and not quoted:
            j = _dquote_end(s, i + 1)
            flush(quoted)
            parts += parse_word(s[i + 1:j - 1], True) or [('lit', '', True)]
            i = j
        elif c == '`':
            j = s.index('`', i + 1)
            flush(quoted)
            parts.append(('cmd', s[i + 1:j], quoted))
            i = j + 1
        elif c == '$':
            p, j = _dollar(s, i)
            if p is None:
                lit += c
            else:
                flush(quoted)
                parts.append(p + (quoted,))
            i = j
        else:
            lit += c
            i += 1
    flush(quoted)
    return parts


def tokens(s):
    """[('w', text) | ('op', text)]"""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c in ' \t':
            i += 1
            continue
        if s.startswith('\\\n', i):
            i += 2
            continue
        if c == '#' and (i == 0 or s[i - 1] in ' \t\n;&|()'):
            while i < n and s[i] != '\n':
                i += 1
            continue
        if s.startswith('((', i) and (not out or out[-1][0] == 'op' or out[-1][1] in RESERVED):
            j = _closing(s, i + 1, '(', ')')
            if s[j - 2] == ')':
                out.append(('arith', s[i + 2:j - 2]))
                i = j
                continue
        m = re.compile(r'\d(?=[<>])').match(s, i)
        if m:
            i += 1
            c = s[i]
        op = next((o for o in OPS if s.startswith(o, i)), None)
        if op:
            if op in ('<<', '<<<'):
                raise _Bad('here-document')
            out.append(('op', op))
            i += len(op)
            continue
        j = i
        while j < n:
            c = s[j]
            if c == '\\':
                j += 2
            elif c == "'":
                j = s.index("'", j + 1) + 1
            elif c == '"':
                j = _dquote_end(s, j + 1)
            elif c == '`':
                j = s.index('`', j + 1) + 1
            elif c == '$':
                j = _dollar(s, j)[1]
            elif c == '(' and j > i and s[j - 1] == '=' and re.fullmatch(r'\w+\+?=', s[i:j]):
                j = _closing(s, j + 1, '(', ')')
            elif c in ' \t\n;&|<>()':
                break
            else:
                j += 1
        out.append(('w', s[i:j]))
        i = j
    out.append(('op', '\n'))
    return out


class Parser:
    def __init__(self, text):
        self.t, self.i = tokens(text), 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def is_word(self, *ws):
        k, v = self.peek()
        return k == 'w' and v in ws

    def is_op(self, *ops):
        k, v = self.peek()
        return k == 'op' and v in ops

    def expect(self, w):
        k, v = self.next()
        if v != w:
            raise _Bad('expected %s, found %r' % (w, v))

    def skip(self):
        while self.is_op('\n', ';'):
            self.next()

    def list(self, *until):
        out = []
        while True:
            self.skip()
            if self.peek()[0] == 'eof' or self.is_word(*until) or self.is_op(*[u for u in until if u in (')', ';;')]):
                return out
            out.append(self.andor())

    def andor(self):
        left = self.pipe()
        while self.is_op('&&', '||'):
            op = self.next()[1]
            while self.is_op('\n'):
                self.next()
            left = (op, left, self.pipe())
        if self.is_op('&'):
            raise _Bad('background job')
        return left

    def pipe(self):
        neg = False
        while self.is_word('!'):
            self.next()
            neg = not neg
        stages = [self.command()]
        while self.is_op('|'):
            self.next()
            stages.append(self.command())
        node = stages[0] if len(stages) == 1 else ('pipe', stages)
        return ('not', node) if neg else node

    def redirects(self, node):
        while self.is_op('>', '>>', '<', '>&', '&>', '<&'):
            self.next()
            self.next()
        return node

    def command(self):
        k, v = self.peek()
        if k == 'arith':
            self.next()
            return self.redirects(('arithcmd', v))
        if k == 'op' and v == '(':
            self.next()
            body = self.list(')')
            self.expect(')')
            return self.redirects(('subshell', body))
        if k != 'w':
            raise _Bad('unexpected %r' % v)
        if v == '{':
            self.next()
            body = self.list('}')
            self.expect('}')
            return self.redirects(('group', body))
        if v == 'if':
            self.next()
            arms = [(self.list('then'), (self.expect('then'), self.list('elif', 'else', 'fi'))[1])]
            other = []
            while True:
                w = self.next()[1]
                if w == 'elif':
                    c = self.list('then')
                    self.expect('then')
                    arms.append((c, self.list('elif', 'else', 'fi')))
                elif w == 'else':
                    other = self.list('fi')
                elif w == 'fi':
                    return self.redirects(('if', arms, other))
                else:
                    raise _Bad('if')
        if v in ('while', 'until'):
            self.next()
            c = self.list('do')
            self.expect('do')
            body = self.list('done')
            self.expect('done')
            return self.redirects((v, c, body))
        if v == 'for':
            self.next()
            k, name = self.next()
            if k == 'arith':
                head = name.split(';')
                if len(head) != 3:
                    raise _Bad('for')
                self.skip()
                self.expect('do')
                body = self.list('done')
                self.expect('done')
                return self.redirects(('cfor', head, body))
            ws = None
            while self.is_op('\n'):
                self.next()
            if self.is_word('in'):
                self.next()
                ws = []
                while self.peek()[0] == 'w':
                    ws.append(parse_word(self.next()[1]))
            self.skip()
            self.expect('do')
            body = self.list('done')
            self.expect('done')
            return self.redirects(('for', name, ws, body))
        if v == 'case':
            self.next()
            subject = parse_word(self.next()[1])
            while self.is_op('\n'):
                self.next()
            self.expect('in')
            arms = []
            while True:
                self.skip()
                if self.is_word('esac'):
                    self.next()
                    return self.redirects(('case', subject, arms))
                if self.is_op('('):
                    self.next()
                pats = [parse_word(self.next()[1])]
                while self.is_op('|'):
                    self.next()
                    pats.append(parse_word(self.next()[1]))
                self.expect(')')
                arms.append((pats, self.list(';;', 'esac')))
                if self.is_op(';;'):
                    self.next()
        if v == '[[':
            self.next()
            ws = []
            while not self.is_word(']]'):
                k, x = self.next()
                if k == 'eof':
                    raise _Bad('[[')
                ws.append(('op', x) if k == 'op' else ('w', parse_word(x)))
            self.next()
            return self.redirects(('dbracket', ws))
        if v == 'function' or NAME.match(v) and self.peek(1) == ('op', '(') and self.peek(2) == ('op', ')'):
            if v == 'function':
                self.next()
            name = self.next()[1]
            if self.is_op('('):
                self.next()
                self.expect(')')
            while self.is_op('\n'):
                self.next()
            return ('def', name, self.command())
        if v in RESERVED:
            raise _Bad('unexpected %r' % v)
        ws = []
        while True:
            k, v = self.peek()
            if k == 'w':
                self.next()
                m = re.match(r'([A-Za-z_]\w*)(\[[^]]*\])?(\+?=)', v) if all(w[0] == 'set' for w in ws) or ws and ws[0] == ('w', [('lit', 'export', False)]) else None
                if m and (not ws or all(w[0] == 'set' for w in ws)):
                    rest = v[m.end():]
                    if rest.startswith('('):
                        ws.append(('set', m.group(1), m.group(3), [parse_word(t[1]) for t in tokens(rest[1:-1]) if t[0] == 'w'], True))
                    elif m.group(2):
                        raise _Bad('array element')
                    else:
                        ws.append(('set', m.group(1), m.group(3), parse_word(rest), False))
                else:
                    ws.append(('w', parse_word(v)))
            elif k == 'op' and v in ('>', '>>', '<', '>&', '&>', '<&'):
                self.next()
                self.next()
            else:
                return ('simple', ws)


_parsed = {}


def parse(text):
    """[[command, ...] per line]"""
    if text not in _parsed:
        if len(_parsed) > 500:
            _parsed.clear()
        try:
            p, tree, new = Parser(text), [], True
            while p.peek()[0] != 'eof':
                if p.is_op('\n', ';'):
                    new = p.next()[1] == '\n' or new
                    continue
                if new:
                    tree.append([])
                    new = False
                at = p.i
                tree[-1].append(p.andor())
                if p.i == at:
                    raise _Bad('unexpected %r' % (p.peek()[1],))
        except (_Bad, ValueError, IndexError) as e:
            tree = StubGap('shell: %s' % e)
        _parsed[text] = tree
    if isinstance(_parsed[text], StubGap):
        raise StubGap(*_parsed[text].args)
    return _parsed[text]


# ------------------------------------------------------------------------------------------------ running
class _Exit(Exception):
    pass


class _Return(Exception):
    pass


class _Discard(Exception):
    """An expansion failed: the rest of the line, with whatever it is part of, is left out."""


class _Loop(Exception):
    pass


def arith(text, get, put):
    """Integer expressions."""
    text = text.strip()
    if not text:
        return 0
    m = re.fullmatch(r'(\w+)\s*([-+*/%]?)=(?!=)\s*(.*)', text, re.S)
    if m and NAME.match(m.group(1)):
        v = arith(m.group(3), get, put)
        if m.group(2):
            v = arith('%d %s %d' % (arith(m.group(1), get, put), m.group(2), v), get, put)
        put(m.group(1), str(v))
        return v
    m = re.fullmatch(r'(?:(\w+)\s*(\+\+|--)|(\+\+|--)\s*(\w+))', text)
    if m:
        name, op = m.group(1) or m.group(4), m.group(2) or m.group(3)
        old = arith(name, get, put)
        new = old + (1 if op == '++' else -1)
        put(name, str(new))
        return old if m.group(1) else new
    if not re.fullmatch(r'[\w\s+\-*/%<>=!&|()?:^~$]*', text):
        raise StubGap('shell: arithmetic %r' % text)
    if '?' in text or ':' in text:
        m = re.fullmatch(r'([^?:]*)\?([^?:]*):([^?:]*)', text)
        if not m:
            raise StubGap('shell: arithmetic %r' % text)
        return arith(m.group(2 if arith(m.group(1), get, put) else 3), get, put)

    def name(m):
        v = m.group(0)
        if re.fullmatch(r'0\d*[89]\d*', v):
            raise _Discard()
        if v[0].isdigit():
            return str(int(v, 16) if v[:2].lower() == '0x' else int(v, 8) if len(v) > 1 and v[0] == '0' and v.isdigit() else int(v))
        v = get(v) or '0'
        return '(%d)' % arith(v, get, put)
    e = re.sub(r'\w+', name, text.replace('$', ''))
    e = e.replace('&&', ' and ').replace('||', ' or ')
    e = re.sub(r'!(?!=)', ' not ', e)
    e = e.replace('/', '//')
    try:
        return int(eval(e, {'__builtins__': {}}))
    except ZeroDivisionError:
        raise _Discard()
    except Exception:
        raise StubGap('shell: arithmetic %r' % text)


IGNORED = ('source', '.', 'module', 'ulimit', 'hostname', 'mkdir', 'conda', 'trap', 'wait', 'unset', 'umask', 'nvidia-smi', 'eval', 'declare', 'readonly')


class Shell:
    def __init__(self, env, cwd, launch, args=(), name='bash', now=None, limit=200_000, ls=None):
        self.vars, self.exported = dict(env), set(env)
        self.cwd = cwd
        self.vars['PWD'] = cwd
        self.launch_fn, self.args, self.name, self.now = launch, list(args), name, now
        self.status, self.funcs = 0, {}
        self.capture = []           # stack of output buffers
        self.errexit = False
        self.guard = 0              # >0: inside a condition
        self.left = limit
        self.ls = ls                # the names in a directory

    # -------------------------------------------------------- expansion
    def get(self, n):
        if n.isdigit():
            i = int(n)
            return self.name if i == 0 else self.args[i - 1] if i <= len(self.args) else ''
        if n in '@*':
            return ' '.join(self.args)
        if n == '#':
            return str(len(self.args))
        if n == '?':
            return str(self.status)
        if n == '$':
            return '4242'
        if n == '!' or n == '-':
            return ''
        v = self.vars.get(n, '')
        return v[0] if isinstance(v, list) and v else '' if isinstance(v, list) else v

    def put(self, n, v):
        self.vars[n] = v

    def param(self, s, quoted):
        """${...}: a list of fields when it stands for several."""
        m = re.fullmatch(r'#(\w+)\[[@*]\]', s)
        if m:
            v = self.vars.get(m.group(1), [])
            return str(len(v) if isinstance(v, list) else 1)
        m = re.fullmatch(r'#(\w+|[@*#])', s)
        if m:
            return self.get('#') if m.group(1) in '@*' else str(len(self.get(m.group(1))))
        m = re.fullmatch(r'(\w+)\[([@*])\]', s)
        if m:
            v = self.vars.get(m.group(1), [])
            return list(v) if isinstance(v, list) else [v]
        m = re.fullmatch(r'(\w+)\[(.+)\]', s)
        if m:
            v = self.vars.get(m.group(1), [])
            v = v if isinstance(v, list) else [v]
            i = arith(self.one(parse_word(m.group(2), True)), self.get, self.put)
            return v[i] if -len(v) <= i < len(v) else ''
        m = re.fullmatch(r'(\w+|[@*#?$])', s)
        if m:
            return self.get(s)
        m = re.fullmatch(r'(\w+|[@*])(:?[-=+?])(.*)', s, re.S)
        if m:
            n, op, rest = m.groups()
            isset = n in self.vars or n.isdigit() and int(n) <= len(self.args) or n in '@*' and bool(self.args)
            have = isset and (self.get(n) != '' if op[0] == ':' else True)
            if op[-1] == '+':
                return self.one(parse_word(rest, True)) if have else ''
            if have:
                return self.get(n)
            if op[-1] == '?':
                raise _Exit(1)
            v = self.one(parse_word(rest, True))
            if op[-1] == '=':
                self.put(n, v)
            return v
        m = re.fullmatch(r'(\w+)(%%?|##?)(.*)', s, re.S)
        if m:
            v, pat = self.get(m.group(1)), self.one(parse_word(m.group(3), True))
            cuts = range(len(v) + 1)
            if m.group(2)[0] == '%':
                hits = [i for i in cuts if fnmatch.fnmatchcase(v[i:], pat)]
                return v[:(min(hits) if m.group(2) == '%%' else max(hits))] if hits else v
            hits = [i for i in cuts if fnmatch.fnmatchcase(v[:i], pat)]
            return v[(max(hits) if m.group(2) == '##' else min(hits)):] if hits else v
        m = re.fullmatch(r'(\w+)(//?)([^/]+)/?(.*)', s, re.S)
        if m and '*' not in m.group(3) and '?' not in m.group(3) and '[' not in m.group(3):
            return self.get(m.group(1)).replace(self.one(parse_word(m.group(3), True)), self.one(parse_word(m.group(4), True)), -1 if m.group(2) == '//' else 1)
        raise StubGap('shell: ${%s}' % s)

    def value(self, part):
        k, v = part[0], part[1]
        if k == 'lit':
            return v
        if k == 'var':
            return self.get(v) if v != '@' else list(self.args)
        if k == 'param':
            return self.param(v, part[2]) if v != '@' else list(self.args)
        if k == 'arith':
            return str(arith(self.one(v), self.get, self.put))
        if k == 'cmd':
            sub = self.fork()
            sub.capture.append([])
            try:
                sub.lines(parse(v))
            except _Exit as e:
                sub.status = e.args[0]
            self.status = sub.status
            return ''.join(sub.capture.pop()).rstrip('\n')
        raise StubGap('shell: %s' % k)

    def one(self, parts):
        out = []
        for p in parts:
            v = self.value(p)
            out.append(' '.join(v) if isinstance(v, list) else v)
        return ''.join(out)

    def fields(self, parts):
        """Word splitting and pathname expansion."""
        out, cur, pat, have = [], '', '', False     # pat: the field with its quoted parts escaped
        if parts and parts[0][0] == 'lit' and not parts[0][2]:
            m = re.fullmatch(r'(.*)\{(-?\d+)\.\.(-?\d+)\}(.*)', parts[0][1]) if len(parts) == 1 else None
            if m:
                a, b = int(m.group(2)), int(m.group(3))
                return [m.group(1) + str(i) + m.group(4) for i in (range(a, b + 1) if a <= b else range(a, b - 1, -1))]
        for p in parts:
            v = self.value(p)
            if p[0] == 'lit':
                if not p[2] and re.search(r'\{.*,', p[1]):
                    raise StubGap('shell: pattern %r' % p[1])
                if not p[2] and p[1][0] == '~' and not have:
                    v = self.get('HOME') + v[1:]
                cur, have = cur + v, True
                pat += v if not p[2] else glob.escape(v)
            elif p[2]:
                if isinstance(v, list):
                    for n, x in enumerate(v):
                        if n:
                            out.append((cur, pat))
                            cur = pat = ''
                        cur, pat, have = cur + x, pat + glob.escape(x), True
                else:
                    cur, pat, have = cur + v, pat + glob.escape(v), True
            else:
                v = ' '.join(v) if isinstance(v, list) else v
                if re.match(r'\s', v) and have:
                    out.append((cur, pat))
                    cur, pat, have = '', '', False
                ws = v.split()
                for n, x in enumerate(ws):
                    if n:
                        out.append((cur, pat))
                        cur = pat = ''
                    cur, pat, have = cur + x, pat + x, True
                if ws and re.search(r'\s$', v):
                    out.append((cur, pat))
                    cur, pat, have = '', '', False
        if have:
            out.append((cur, pat))
        return [y for c, q in out for y in self.paths(c, q)]

    def paths(self, text, pat):
        """The files a pattern stands for; the text itself if there are none."""
        if not glob.has_magic(glob.escape(text)) or pat == glob.escape(text) or not re.search(r'[*?]|\[.+\]', pat.replace('[[]', '').replace('[*]', '').replace('[?]', '')):
            return [text]
        if self.ls is None:
            raise StubGap('shell: pattern %r' % text)
        found = ['/' if pat.startswith('/') else '']
        for n, part in enumerate(x for x in pat.split('/') if x):
            new = []
            for base in found:
                plain = re.sub(r'\[([*?[])\]', r'\1', part)
                if glob.escape(plain) == part or part in ('.', '..'):
                    new.append(base + plain + '/')
                    continue
                for e in self.ls(posixpath.normpath(posixpath.join(self.cwd, base or '.'))):
                    if fnmatch.fnmatchcase(e, part.replace('[^', '[!')) and (not e.startswith('.') or part.startswith('.')):
                        new.append(base + e + '/')
            found = new
        found = [x[:-1] for x in found]
        found = [x for x in found if posixpath.basename(x) in self.ls(posixpath.dirname(posixpath.normpath(posixpath.join(self.cwd, x))))]
        return sorted(found) or [text]

    def fork(self):
        s = Shell({}, self.cwd, self.launch_fn, self.args, self.name, self.now, self.left, self.ls)
        s.vars, s.exported, s.funcs, s.errexit, s.status = dict(self.vars), set(self.exported), dict(self.funcs), self.errexit, self.status
        s.capture = []
        return s

    # -------------------------------------------------------- commands
    def lines(self, tree):
        for line in tree:
            try:
                self.block(line)
            except _Discard:
                self.status = 1

    def block(self, nodes):
        for n in nodes:
            self.run(n)

    def cond(self, nodes):
        self.guard += 1
        try:
            self.status = 0
            self.block(nodes)
            return self.status == 0
        finally:
            self.guard -= 1

    def run(self, n):
        self.left -= 1
        if self.left < 0:
            raise StubGap('shell: the script does not end')
        k = n[0]
        if k == 'simple':
            self.simple(n[1])
        elif k in ('&&', '||'):
            self.guard += 1
            try:
                self.run(n[1])
            finally:
                self.guard -= 1
            if (self.status == 0) == (k == '&&'):
                self.run(n[2])
            return
        elif k == 'not':
            self.guard += 1
            try:
                self.run(n[1])
            finally:
                self.guard -= 1
            self.status = 0 if self.status else 1
            return
        elif k == 'if':
            for c, body in n[1]:
                if self.cond(c):
                    self.status = 0
                    self.block(body)
                    return
            self.status = 0
            self.block(n[2])
            return
        elif k in ('while', 'until', 'for', 'cfor'):
            self.loop(n)
            return
        elif k == 'case':
            v = self.one(n[1])
            self.status = 0
            for pats, body in n[2]:
                if any(fnmatch.fnmatchcase(v, self.one(p)) for p in pats):
                    self.block(body)
                    return
            return
        elif k == 'group':
            self.block(n[1])
            return
        elif k == 'subshell':
            s = self.fork()
            s.capture = self.capture
            try:
                s.block(n[1])
                self.status = s.status
            except _Exit as e:
                self.status = e.args[0]
        elif k == 'def':
            self.funcs[n[1]] = n[2]
            self.status = 0
        elif k == 'arithcmd':
            self.status = 0 if arith(self.one(parse_word(n[1], True)), self.get, self.put) else 1
        elif k == 'dbracket':
            self.status = 0 if self.dbracket(n[1]) else 1
        else:
            raise StubGap('shell: %s' % k)
        if self.status and self.errexit and not self.guard:
            raise _Exit(self.status)

    def loop(self, n):
        def turns():
            if n[0] == 'for':
                items = self.args if n[2] is None else [f for w in n[2] for f in self.fields(w)]
                for x in items:
                    self.vars[n[1]] = x
                    yield
            elif n[0] == 'cfor':
                ev = [lambda t=t: arith(self.one(parse_word(t, True)), self.get, self.put) for t in n[1]]
                ev[0]()
                while not n[1][1].strip() or ev[1]():
                    yield
                    ev[2]()
            else:
                while self.cond(n[1]) == (n[0] == 'while'):
                    yield
        self.status = 0
        for _ in turns():
            self.left -= 1
            if self.left < 0:
                raise StubGap('shell: the script does not end')
            try:
                self.block(n[-1])
            except _Loop as e:
                if e.args[1] > 1:
                    raise _Loop(e.args[0], e.args[1] - 1)
                if e.args[0] == 'break':
                    break
        else:
            return

    def write(self, text):
        if self.capture:
            self.capture[-1].append(text)

    def simple(self, ws):
        sets, argv = [w for w in ws if w[0] == 'set'], []
        for w in ws:
            if w[0] == 'w':
                argv += self.fields(w[1])
        if not sets and not argv:
            self.status = 0
            return
        env = {}
        self.status = 0
        for _, name, op, parts, arr in sets:
            v = [f for p in parts for f in self.fields(p)] if arr else self.one(parts)
            if op == '+=':
                old = self.vars.get(name, [] if arr else '')
                v = old + v
            if argv:
                env[name] = v
            else:
                self.vars[name] = v
        if not argv:
            return
        self.command(argv, env)

    def command(self, a, env):
        c = a[0]
        if c in self.funcs:
            saved = self.args
            self.args = a[1:]
            self.status = 0
            try:
                self.run(self.funcs[c])
            except _Return as e:
                self.status = e.args[0]
            finally:
                self.args = saved
            return
        self.vars.update(env) if c in ('export', 'local', 'declare') else None
        if c in ('export', 'local', 'declare', 'readonly', 'typeset'):
            for x in a[1:]:
                if x.startswith('-'):
                    continue
                name, eq, v = x.partition('=')
                if eq:
                    self.vars[name] = v
                if c == 'export' or '-x' in a or c == 'declare' and '-x' in a:
                    self.exported.add(name)
            self.status = 0
        elif c in ('[', 'test'):
            if c == '[':
                if a[-1] != ']':
                    self.status = 2
                    return
                a = a[:-1]
            self.status = self.test(a[1:])
        elif c == 'cd':
            if len(a) > 1:
                self.cwd = posixpath.normpath(posixpath.join(self.cwd, a[1]))
                self.vars['PWD'] = self.cwd
            self.status = 0
        elif c == 'echo':
            b = a[1:]
            nl = '\n'
            while b and b[0] in ('-n', '-e', '-ne'):
                nl = '' if 'n' in b.pop(0) else nl
            self.write(' '.join(b) + nl)
            self.status = 0
        elif c == 'printf':
            fmt = a[1].replace('\\n', '\n').replace('\\t', '\t')
            xs = a[2:]
            n = len(re.findall(r'%[-0-9.]*[sdif]', fmt))
            try:
                while True:
                    cur, xs = (xs[:n] + [''] * n)[:n], xs[n:]
                    it = iter(cur)
                    self.write(re.sub(r'%([-0-9.]*)([sdif])', lambda m: ('%' + m.group(1) + m.group(2)) % (
                        (lambda v: v if m.group(2) == 's' else float(v or 0) if m.group(2) == 'f' else int(v or 0))(next(it))), fmt))
                    if not xs or not n:
                        break
            except ValueError:
                self.status = 1
                return
            self.status = 0
        elif c == 'seq':
            b, fmt, wide, sep, rest = [], '%d', False, '\n', list(a[1:])
            while rest:
                x = rest.pop(0)
                if x in ('-f', '--format', '-s', '--separator') and rest:
                    x += '=' + rest.pop(0)
                m = re.fullmatch(r'(?:-f|--format)=?(.*%[-0+ ]*\d*)(?:\.0)?[gdf](.*)|(?:-s|--separator)=(.*)', x)
                if x in ('-w', '--equal-width'):
                    wide = True
                elif m and m.group(3) is not None:
                    sep = m.group(3)
                elif m:
                    fmt = m.group(1) + 'd' + m.group(2)
                else:
                    b.append(x)
            if not all(re.fullmatch(r'-?\d+', x) for x in b) or not 1 <= len(b) <= 3:
                raise StubGap('shell: %s' % a)
            lo, st, hi = {1: (1, 1, int(b[0])), 2: (int(b[0]), 1, int(b[-1])), 3: (int(b[0]), int(b[1 % len(b)]), int(b[-1]))}[len(b)]
            if wide:
                fmt = '%%0%dd' % max(len(str(lo)), len(str(hi)))
            out = [fmt % i for i in (range(lo, hi + 1, st) if st > 0 else range(lo, hi - 1, st))]
            self.write(sep.join(out) + '\n' if out else '')
            self.status = 0
        elif c == 'date':
            t = self.now() if self.now else 0.0
            fmt = '%a %b %d %H:%M:%S UTC %Y'
            for x in a[1:]:
                if x.startswith('+'):
                    fmt = x[1:]
                elif x not in ('-u', '--utc'):
                    raise StubGap('shell: date %s' % x)
            fmt = fmt.replace('%s', '%d' % int(t)).replace('%N', '%09d' % int((t - int(t)) * 1e9)).replace('%3N', '%03d' % int((t - int(t)) * 1e3))
            self.write(time.strftime(fmt, time.gmtime(t)) + '\n')
            self.status = 0
        elif c == 'expr':
            if len(a) != 4 or a[2] not in ('+', '-', '*', '/', '%'):
                raise StubGap('shell: %s' % a)
            v = arith(' '.join(a[1:]), self.get, self.put)
            self.write('%d\n' % v)
            self.status = 0 if v else 1
        elif c in ('pwd', 'whoami', 'basename', 'dirname', 'id', 'tr', 'cat', 'hostname'):
            if c == 'pwd':
                self.write(self.cwd + '\n')
            elif c == 'whoami' or a == ['id', '-un']:
                self.write(self.get('USER') + '\n')
            elif c == 'hostname':
                self.write((self.get('HOSTNAME') or 'node') + '\n')
            elif c == 'basename' and len(a) in (2, 3):
                b = posixpath.basename(a[1].rstrip('/'))
                self.write((b[:-len(a[2])] if len(a) == 3 and b.endswith(a[2]) else b) + '\n')
            elif c == 'dirname' and len(a) == 2:
                self.write((posixpath.dirname(a[1].rstrip('/')) or '.') + '\n')
            else:
                raise StubGap('shell: %s' % a)
            self.status = 0
        elif c == 'set':
            for x in a[1:]:
                if re.fullmatch(r'-[a-z]*e[a-z]*', x):
                    self.errexit = True
                elif x == '--':
                    self.args = a[a.index('--') + 1:]
                    break
            self.status = 0
        elif c == 'shift':
            self.args = self.args[int(a[1]) if len(a) > 1 else 1:]
            self.status = 0
        elif c == 'let':
            for x in a[1:]:
                v = arith(x, self.get, self.put)
            self.status = 0 if v else 1
        elif c in ('true', ':', 'sleep'):
            self.status = 0
        elif c == 'false':
            self.status = 1
        elif c == 'exit':
            raise _Exit(int(a[1]) if len(a) > 1 else self.status)
        elif c == 'return':
            raise _Return(int(a[1]) if len(a) > 1 else self.status)
        elif c in ('break', 'continue'):
            raise _Loop(c, int(a[1]) if len(a) > 1 else 1)
        elif c == 'unset':
            for x in a[1:]:
                self.vars.pop(x, None)
                self.exported.discard(x)
            self.status = 0
        elif c in ('eval', 'trap') or c in IGNORED and c in ('wait', 'umask'):
            if c == 'eval':
                raise StubGap('shell: eval')
            self.status = 0
        elif c in IGNORED:
            self.status = 0
        else:
            if c == 'env':
                a = a[1:]
                while a and re.match(r'\w+=', a[0]):
                    k, v = a.pop(0).split('=', 1)
                    env = dict(env, **{k: v})
            elif c == 'exec':
                a = a[1:]
            if self.capture:
                raise StubGap('shell: output of %s' % a[0])
            e = {k: v for k, v in self.vars.items() if k in self.exported and isinstance(v, str)}
            e.update({k: v for k, v in env.items() if isinstance(v, str)})
            rc = self.launch_fn(a, e, self.cwd)
            self.status = int(rc or 0)
            if c == 'exec':
                raise _Exit(self.status)

    def test(self, a):
        def num(x):
            if not re.fullmatch(r'\s*[-+]?\d+\s*', x):
                raise _Bad(x)
            return int(x)
        try:
            return 0 if self.test1(a, num) else 1
        except _Bad:
            return 2

    def test1(self, a, num):
        if not a:
            return False
        if '-o' in a[1:-1]:
            i = a.index('-o', 1)
            return self.test1(a[:i], num) or self.test1(a[i + 1:], num)
        if '-a' in a[1:-1]:
            i = a.index('-a', 1)
            return self.test1(a[:i], num) and self.test1(a[i + 1:], num)
        if a[0] == '!' and len(a) > 1:
            return not self.test1(a[1:], num)
        if len(a) == 1:
            return a[0] != ''
        if len(a) == 2:
            if a[0] == '-z':
                return a[1] == ''
            if a[0] == '-n':
                return a[1] != ''
            if a[0] in ('-f', '-e', '-d', '-x', '-s'):
                raise StubGap('shell: test %s' % a)
            raise _Bad(a)
        if len(a) == 3:
            x, op, y = a
            if op in ('=', '=='):
                return x == y
            if op == '!=':
                return x != y
            ops = {'-eq': lambda p, q: p == q, '-ne': lambda p, q: p != q, '-lt': lambda p, q: p < q, '-le': lambda p, q: p <= q,
                   '-gt': lambda p, q: p > q, '-ge': lambda p, q: p >= q}
            if op in ops:
                return ops[op](num(x), num(y))
        raise _Bad(a)

    def dbracket(self, ws):
        ev = []
        for k, w in ws:
            ev.append((k, w if k == 'op' else self.one(w), w))

        def num(x):
            return arith(x, self.get, self.put)

        def term(xs):
            if xs and xs[0][1] == '!' and xs[0][0] == 'w':
                return not term(xs[1:])
            if len(xs) == 3 and xs[1][1] in ('==', '=', '!='):
                hit = fnmatch.fnmatchcase(xs[0][1], xs[2][1]) if not any(p[2] for p in xs[2][2] if len(p) > 2) else xs[0][1] == xs[2][1]
                return hit == (xs[1][1] != '!=')
            if len(xs) == 3 and xs[1][1] == '=~':
                return re.search(xs[2][1], xs[0][1]) is not None
            if len(xs) == 3 and xs[1][0] == 'op' and xs[1][1] in '<>':
                return (xs[0][1] < xs[2][1]) == (xs[1][1] == '<')
            try:
                return self.test1([x[1] for x in xs], num)
            except _Bad:
                raise StubGap('shell: [[ %s ]]' % [x[1] for x in xs])

        def split(xs, op, fn):
            out, cur = [], []
            for x in xs:
                if x[0] == 'op' and x[1] == op:
                    out.append(cur)
                    cur = []
                else:
                    cur.append(x)
            return [fn(c) for c in out + [cur]]
        if any(k == 'op' and v in '()' for k, v, _ in ev):
            raise StubGap('shell: [[ with parentheses')
        return any(split(ev, '||', lambda c: all(split(c, '&&', term))))


def run_script(text, env, cwd, launch, args=(), name='job.sh', now=None, ls=None):
    """Interpret a job script.  launch(argv, env, cwd) is called for every program it would start, and returns its status."""
    sh = Shell(env, cwd, launch, args, name, now, ls=ls)
    try:
        sh.lines(parse(text))
    except _Exit as e:
        sh.status = e.args[0]
    except _Return as e:
        sh.status = e.args[0]
    except _Loop:
        raise StubGap('shell: break outside a loop')
    return sh.status
