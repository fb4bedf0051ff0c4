"""Builds the simulated machine room: a fresh world whose disk holds a copy of the repository's working tree."""
import os

from . import core, loader, seams, vfs

_tree = None
SKIP_DIRS = {'.git', '__pycache__', 'notebooks', 'figures', 'results', '.pytest_cache', '.venv', 'node_modules'}


def repo_tree():
    """[(path relative to the repository, bytes or None for a directory)], read once from the real disk."""
    global _tree
    if _tree is None:
        out = []
        for base, dirs, files in os.walk(loader.REPO):
            dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS and not d.endswith('.egg-info'))
            rel = os.path.relpath(base, loader.REPO)
            rel = '' if rel == '.' else rel + '/'
            if rel:
                out.append((rel[:-1], None))
            for f in sorted(files):
                if rel == 'temp/' and not f.startswith('.'):
                    continue
                full = os.path.join(base, f)
                if os.path.islink(full) or not os.path.isfile(full):
                    continue
                if os.path.getsize(full) > 100_000:
                    out.append((rel + f, b'(large file)\n'))
                    continue
                with seams.REAL['open'](full, 'rb') as fh:
                    out.append((rel + f, fh.read()))
        _tree = out
    return _tree


REPO_SIM = loader.SIM_REPO_DIR
IMPORTS_PKG = [REPO_SIM, REPO_SIM + '/nonasymptotic']


def mkworld(plan, tick=1e-4, max_steps=400_000, tree=True):
    w = core.World(plan, tick=tick, max_steps=max_steps)
    w.fs = vfs.VFS(lambda: core.BASE_EPOCH + w.now)
    w.fs.makedirs('/tmp')
    w.fs.makedirs('/home/user')
    w.fs.makedirs(REPO_SIM)
    if tree:
        for rel, data in repo_tree():
            if data is None:
                w.fs.makedirs(REPO_SIM + '/' + rel)
            else:
                w.fs.put(REPO_SIM + '/' + rel, data, durable=False)
    w.fs.makedirs(REPO_SIM + '/temp')
    w.fs.makedirs(REPO_SIM + '/nonasymptotic')
    w.fs.sync_all()
    w.fs.mutations = 0
    return w
