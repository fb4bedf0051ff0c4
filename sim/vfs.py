"""In-memory POSIX file system with a durability model.

Volatile state: what processes see.  Durable state: what survives a machine crash.
  * File contents become durable on fsync/fdatasync of the file, or by write-back when dirty for WRITEBACK_S seconds.
  * Directory changes (create, rename, unlink, mkdir) form an ordered journal; any fsync commits the whole journal
    (as a journaling file system does), and it is committed by itself after JOURNAL_S seconds.
  * On a crash a prefix of the uncommitted journal survives, and each dirty file's content is its durable content, its
    current content, a prefix of it, or (never synced) empty: the plan's crash entry decides which.
"""
import errno
import os
import posixpath
import stat as _stat

WRITEBACK_S = 30.0
JOURNAL_S = 5.0


def err(code, path=None, path2=None):
    e = OSError(code, os.strerror(code), path) if path2 is None else OSError(code, os.strerror(code), path, None, path2)
    return e


class Inode:
    __slots__ = ('ino', 'kind', 'data', 'durable', 'entries', 'dentries', 'mtime', 'mode', 'target', 'dirty_since', 'nlink')

    def __init__(self, ino, kind, now, mode=None):
        self.ino, self.kind = ino, kind
        self.data = bytearray() if kind == 'file' else None
        self.durable = None
        self.entries = {} if kind == 'dir' else None      # volatile
        self.dentries = {} if kind == 'dir' else None     # durable
        self.mtime = now
        self.mode = mode if mode is not None else (0o755 if kind == 'dir' else 0o644)
        self.target = None
        self.dirty_since = None
        self.nlink = 1


class VFS:
    def __init__(self, clock):
        self.clock = clock              # () -> wall time for mtimes
        self.inoctr = 1
        self.root = self._new('dir')
        self.journal = []               # [(time, [(dir_ino, name, ino_or_None), ...])]
        self.inodes = {self.root.ino: self.root}
        self.mutations = 0
        self.capacity = None
        self.writes_outside = []

    def _new(self, kind, mode=None):
        self.inoctr += 1
        n = Inode(self.inoctr, kind, self.clock(), mode)
        if hasattr(self, 'inodes'):
            self.inodes[n.ino] = n
        return n

    # ------------------------------------------------------------ lookup
    def resolve(self, path, follow=True, parent=False, depth=0):
        """-> inode, or (dir inode, last name) when parent=True"""
        if depth > 20:
            raise err(errno.ELOOP, path)
        assert path.startswith('/'), path
        parts = [c for c in path.split('/') if c and c != '.']
        stack = [self.root]
        for i, c in enumerate(parts):
            cur = stack[-1]
            last = i == len(parts) - 1
            if cur.kind != 'dir':
                raise err(errno.ENOTDIR, path)
            if parent and last and c != '..':
                return cur, c
            if c == '..':
                if len(stack) > 1:
                    stack.pop()
                continue
            nxt = cur.entries.get(c)
            if nxt is None:
                raise err(errno.ENOENT, path)
            if nxt.kind == 'link' and (follow or not last):
                tgt = nxt.target
                if not tgt.startswith('/'):
                    tgt = self.path_of(stack) + '/' + tgt
                rest = '/'.join(parts[i + 1:])
                return self.resolve(tgt + ('/' + rest if rest else ''), follow, parent, depth + 1)
            stack.append(nxt)
        if parent:
            raise err(errno.EEXIST, path)
        return stack[-1]

    def path_of(self, stack):
        out = ''
        for a, b in zip(stack, stack[1:]):
            for k, v in a.entries.items():
                if v is b:
                    out += '/' + k
                    break
        return out or '/'

    def lookup(self, path, follow=True):
        try:
            return self.resolve(path, follow)
        except OSError:
            return None

    # ------------------------------------------------------------ metadata changes
    def _change(self, changes):
        for d, name, node in changes:
            if node is None:
                d.entries.pop(name, None)
            else:
                d.entries[name] = node
            d.mtime = self.clock()
        self.journal.append((self.clock(), [(d, name, node) for d, name, node in changes]))
        self.mutations += 1

    def commit_journal(self, upto=None):
        while self.journal and (upto is None or self.journal[0][0] <= upto):
            _, ch = self.journal.pop(0)
            self._apply_durable(ch)

    @staticmethod
    def _apply_durable(ch):
        for d, name, node in ch:
            if node is None:
                d.dentries.pop(name, None)
            else:
                d.dentries[name] = node

    def create(self, path, mode=0o644):
        d, name = self.resolve(path, parent=True)
        n = self._new('file', mode)
        self._change([(d, name, n)])
        return n

    def mkdir(self, path, mode=0o777):
        d, name = self.resolve(path, parent=True)
        if name in d.entries:
            raise err(errno.EEXIST, path)
        n = self._new('dir', mode & 0o755)
        self._change([(d, name, n)])
        return n

    def makedirs(self, path):
        cur = ''
        for c in [c for c in path.split('/') if c]:
            cur += '/' + c
            if self.lookup(cur) is None:
                self.mkdir(cur)

    def rmdir(self, path):
        d, name = self.resolve(path, parent=True)
        n = d.entries.get(name)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind != 'dir':
            raise err(errno.ENOTDIR, path)
        if n.entries:
            raise err(errno.ENOTEMPTY, path)
        self._change([(d, name, None)])

    def unlink(self, path):
        d, name = self.resolve(path, parent=True)
        n = d.entries.get(name)
        if n is None:
            raise err(errno.ENOENT, path)
        if n.kind == 'dir':
            raise err(errno.EISDIR, path)
        n.nlink -= 1
        self._change([(d, name, None)])

    def rename(self, src, dst):
        sd, sn = self.resolve(src, parent=True)
        n = sd.entries.get(sn)
        if n is None:
            raise err(errno.ENOENT, src, dst)
        dd, dn = self.resolve(dst, parent=True)
        t = dd.entries.get(dn)
        if t is n:
            return
        if t is not None:
            if t.kind == 'dir' and n.kind != 'dir':
                raise err(errno.EISDIR, src, dst)
            if t.kind != 'dir' and n.kind == 'dir':
                raise err(errno.ENOTDIR, src, dst)
            if t.kind == 'dir' and t.entries:
                raise err(errno.ENOTEMPTY, src, dst)
            t.nlink -= 1
        self._change([(sd, sn, None), (dd, dn, n)])

    def link(self, src, dst):
        n = self.resolve(src, follow=False)
        d, name = self.resolve(dst, parent=True)
        if name in d.entries:
            raise err(errno.EEXIST, src, dst)
        n.nlink += 1
        self._change([(d, name, n)])

    def symlink(self, target, path):
        d, name = self.resolve(path, parent=True)
        if name in d.entries:
            raise err(errno.EEXIST, path)
        n = self._new('link')
        n.target = target
        self._change([(d, name, n)])

    # ------------------------------------------------------------ data
    def touch_data(self, n):
        n.mtime = self.clock()
        if n.dirty_since is None:
            n.dirty_since = self.clock()
        self.mutations += 1

    def write(self, n, pos, data):
        if len(n.data) < pos:
            n.data.extend(b'\0' * (pos - len(n.data)))
        n.data[pos:pos + len(data)] = data
        self.touch_data(n)

    def truncate(self, n, size):
        if len(n.data) > size:
            del n.data[size:]
        else:
            n.data.extend(b'\0' * (size - len(n.data)))
        self.touch_data(n)

    def fsync(self, n):
        if n.kind == 'file':
            n.durable = bytes(n.data)
            n.dirty_since = None
        self.commit_journal()

    def writeback(self, now):
        """Background write-back, called as time passes."""
        self.commit_journal(now - JOURNAL_S)
        for n in self.inodes.values():
            if n.kind == 'file' and n.dirty_since is not None and n.dirty_since <= now - WRITEBACK_S:
                n.durable = bytes(n.data)
                n.dirty_since = None

    def used(self):
        return sum(len(n.data) for n in self.inodes.values() if n.kind == 'file' and n.nlink > 0)

    # ------------------------------------------------------------ crash
    def crash(self, pick):
        """Machine crash.  pick(label, n) -> int in range(n) decides every outcome.  Returns a description."""
        desc = []
        k = pick('journal', len(self.journal) + 1)
        desc.append('journal %d/%d' % (k, len(self.journal)))
        for _, ch in self.journal[:k]:
            self._apply_durable(ch)
        self.journal = []
        for n in list(self.inodes.values()):
            if n.kind == 'dir':
                n.entries = dict(n.dentries)
        for n in list(self.inodes.values()):
            if n.kind != 'file':
                continue
            cur = bytes(n.data)
            dur = n.durable if n.durable is not None else b''
            if n.dirty_since is not None or cur != dur:
                o = pick('data', 4)
                if o == 0:
                    new = dur
                elif o == 1:
                    new = cur
                elif o == 2:
                    new = cur[:pick('cut', len(cur) + 1)]
                else:
                    c = pick('cut', len(cur) + 1)
                    new = cur[:c] + b'\0' * (len(cur) - c) if n.durable is None else dur
                if new != cur:
                    desc.append('ino%d %d->%d bytes' % (n.ino, len(cur), len(new)))
                n.data = bytearray(new)
            n.durable = bytes(n.data)
            n.dirty_since = None
        return desc

    # ------------------------------------------------------------ harness helpers (no fault, no step)
    def put(self, path, data, durable=True):
        if isinstance(data, str):
            data = data.encode()
        self.makedirs(posixpath.dirname(path))
        n = self.lookup(path)
        if n is None:
            n = self.create(path)
        n.data = bytearray(data)
        n.mtime = self.clock()
        if durable:
            self.sync_all()
        return n

    def sync_all(self):
        self.commit_journal()
        for n in self.inodes.values():
            if n.kind == 'file':
                n.durable = bytes(n.data)
                n.dirty_since = None

    def get(self, path):
        n = self.lookup(path)
        return None if n is None or n.kind != 'file' else bytes(n.data)

    def ls(self, path):
        n = self.lookup(path)
        return sorted(n.entries) if n is not None and n.kind == 'dir' else []

    def tree(self, path='/'):
        """{relative path: bytes or None for directories}"""
        n = self.lookup(path)
        out = {}

        def rec(n, p):
            for k in sorted(n.entries):
                c = n.entries[k]
                q = p + '/' + k if p else k
                if c.kind == 'dir':
                    out[q] = None
                    rec(c, q)
                elif c.kind == 'file':
                    out[q] = bytes(c.data)
                else:
                    out[q] = b'->' + c.target.encode()
        if n is not None and n.kind == 'dir':
            rec(n, '')
        return out

    def statres(self, n):
        t = {'dir': _stat.S_IFDIR, 'file': _stat.S_IFREG, 'link': _stat.S_IFLNK}[n.kind]
        size = len(n.data) if n.kind == 'file' else (4096 if n.kind == 'dir' else len(n.target))
        m = n.mtime
        ns = int(round(m * 1e9))
        return os.stat_result((t | n.mode, n.ino, 1, max(1, n.nlink), 0, 0, size, int(m), int(m), int(m),
                               float(m), float(m), float(m), ns, ns, ns))
