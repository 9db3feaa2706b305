"""Directory contents as states: a tuple of (name, content, rank of the time of modification)."""
import os
import shutil

import common

T0 = 1_600_000_000


def restore(d, state):
    """Makes the directory contain exactly the files of the state."""
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    for name, data, rank in state:
        path = os.path.join(d, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(data)
        os.utime(path, (T0 + rank * 10, T0 + rank * 10))


def snapshot(d):
    """name -> (content, inode, mtime)"""
    res = {}
    for root, _, names in os.walk(d):
        for name in names:
            path = os.path.join(root, name)
            try:
                st = os.stat(path)
                with open(path, 'rb') as f:
                    res[os.path.relpath(path, d)] = (f.read(), st.st_ino, st.st_mtime_ns)
            except FileNotFoundError:
                pass
    return res


def state_of(snap):
    order = sorted({m for _, _, m in snap.values()})
    return tuple(sorted((n, c, order.index(m)) for n, (c, _, m) in snap.items()))


def strip(data):
    """Content without the time stamp of generated code."""
    return common.STAMP.sub('# stamp\n', data.decode('utf-8', 'surrogateescape'))


def put(state, name, data, rank='new'):
    """State after writing a file; rank: 'new', 'old' (older than all others) or 'same'."""
    old = {n: r for n, _, r in state}
    files = [(n, c, r) for n, c, r in state if n != name]
    ranks = [r for _, _, r in files]
    r = max(ranks, default=0) + 1 if rank == 'new' else min(ranks, default=0) - 1 if rank == 'old' \
        else old.get(name, 0)
    files.append((name, data, r))
    return renumber(files)


def drop(state, name):
    return renumber([f for f in state if f[0] != name])


def renumber(files):
    order = sorted({r for _, _, r in files})
    return tuple(sorted((n, c, order.index(r)) for n, c, r in files))


def get(state, name):
    for n, c, _ in state:
        if n == name:
            return c
    return None


def workdir(tag):
    return os.path.join(common.SCRATCH, 'work', f'{tag}_{os.getpid()}')
