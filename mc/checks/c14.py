"""C14: interrupted runs never leave a file that is mistaken for complete."""
import os
import sys

import common
import files
from checks import c13

VERSIONS = ('ok1', 'ok2', 'warn', 'err', 'all', 'mark')


def signature(d):
    res = []
    for root, _, names in os.walk(d):
        for name in names:
            try:
                st = os.stat(os.path.join(root, name))
            except FileNotFoundError:
                continue
            res.append((os.path.join(root, name), st.st_ino, st.st_size, st.st_mtime_ns))
    return tuple(res)


AUDIT = [None]


def audit_hook(event, args):
    if AUDIT[0] is not None and event in ('open', 'os.rename', 'os.remove', 'os.truncate', 'shutil.move'):
        AUDIT[0](event, args)


def record(d, func):
    """All states of the directory that can be observed between two lines of Python code."""
    snaps = [files.snapshot(d)]
    last = [signature(d)]
    renamed = set()         # names of files that have been renamed since the last snapshot
    atomic = [set()]        # for each snapshot: files that have got there by renaming
    own = os.path.dirname(os.path.abspath(common.__file__))
    count = [0]

    def look():
        sig = signature(d)
        if sig != last[0]:
            last[0] = sig
            snaps.append(files.snapshot(d))
            atomic.append(set(renamed))
            renamed.clear()

    def audit(event, args):
        AUDIT[0] = None
        try:
            look()
            if event == 'os.rename':
                renamed.add(os.path.relpath(os.path.abspath(os.fsdecode(args[1])), d))
            elif event == 'open' and isinstance(args[0], (str, bytes)):
                renamed.discard(os.path.relpath(os.path.abspath(os.fsdecode(args[0])), d))
        finally:
            AUDIT[0] = audit

    def local(frame, event, arg):
        count[0] += 1
        look()
        return local

    def glob(frame, event, arg):
        if frame.f_code.co_filename.startswith(own) and 'tree' not in frame.f_code.co_filename:
            return None
        name = os.path.basename(frame.f_code.co_filename)
        if name in ('parse.py', 'copy.py', 'enum.py', 'nodetree.py', '_main.py', 'transform.py', 'typing.py'):
            return None
        return local
    AUDIT[0] = audit
    sys.settrace(glob)
    try:
        func()
    finally:
        sys.settrace(None)
        AUDIT[0] = None
    look()
    return list(zip(snaps, atomic)), count[0]


def cuts(data, full):
    n = len(data)
    if full or n < 200:
        return range(n + 1)
    res = set(range(n - 60, n + 1)) | {0, 1, n // 2, 8192, 4096}
    h = data.find(b'source_hash__')
    res.update(range(h - 2, h + 60))
    i = data.find(b'\n')
    while i >= 0:
        res.update((i, i + 1))
        i = data.find(b'\n', i + 1)
    return sorted(c for c in res if 0 <= c <= n)


def crash_states(snaps, full):
    """All directory contents a crash can leave behind: name -> content."""
    res = {}

    def add(st, why):
        res.setdefault(tuple(sorted(st.items())), why)
    atomic = [a for _, a in snaps]
    snaps = [s for s, _ in snaps]
    for k, s in enumerate(snaps):
        add({n: c for n, (c, _, _) in s.items()}, f'snapshot {k}')
    for k in range(1, len(snaps)):
        a, b = snaps[k - 1], snaps[k]
        inodes = {i for _, i, _ in a.values()}
        base_a = {n: c for n, (c, _, _) in a.items()}
        base_b = {n: c for n, (c, _, _) in b.items()}
        for name in b:
            new, ino, _ = b[name]
            old = a.get(name)
            if old is not None and old[1] == ino:
                if old[0] == new:
                    continue
                start = len(old[0]) if new.startswith(old[0]) else 0
            elif name in atomic[k] or ino in inodes and any(a[n][1] == ino and a[n][0] == new for n in a):
                continue                # renamed: atomic
            else:
                start = 0
            for c in cuts(new, full):
                if c >= start:
                    for base in (base_a, base_b):
                        add(dict(base, **{name: new[:c]}), f'{name} cut to {c} of {len(new)} bytes')
    return res


def prior(spec):
    """State of the directory before the interrupted run, source and configuration of the run."""
    mode, before, v, ci = spec
    state = ((c13.SRC, c13.SOURCES[v], 0),)
    if before is not None:
        w, cj = before
        ref = c13.reference(w, cj, mode)[0]
        state = ((c13.SRC, c13.SOURCES[w], 0),)
        for n, text in ref.items():
            state = files.put(state, n, text.encode())
        if w != v:
            state = files.put(state, c13.SRC, c13.SOURCES[v])
    return state


def recover(state, mode, v, ci):
    """'' or what is wrong after an uninterrupted run."""
    common.set_cfg(c13.CFGS[ci])
    d = files.workdir('rec')
    files.restore(d, state)
    try:
        got = c13.outcome(d, mode, c13.process(d, mode, c13.SOURCES[v]))
    except Exception as e:
        return 'raises ' + common.describe_exc(e)
    ref = c13.reference(v, ci, mode)
    if got == ref:
        return ''
    parts = [n for n in set(got[0]) | set(ref[0]) if got[0].get(n) != ref[0].get(n)]
    return ', '.join(f'{n} ' + ('missing' if n not in got[0] else 'superfluous' if n not in ref[0] else 'differs')
                     for n in parts) or f'returned {got[1]!r} instead of {ref[1]!r}'


def as_state(content, order):
    return tuple((n, c, order) for n, c in content)


def crashes(spec, full, part, parts, again):
    mode, before, v, ci = spec
    c13.reference(v, ci, mode)
    state = prior(spec)
    common.set_cfg(c13.CFGS[ci])
    d = files.workdir('crash')
    files.restore(d, state)
    snaps, lines = record(d, lambda: c13.process(d, mode, c13.SOURCES[v]))
    states = sorted(crash_states(snaps, full).items())
    fails, n = [], 0
    for k, (content, why) in enumerate(states):
        if k % parts != part:
            continue
        n += 1
        msg = recover(as_state(content, 0), mode, v, ci)
        if msg:
            fails.append(f'{describe(spec)}: interrupted ({why}); after the next run: {msg}')
            break
        if again and 'snapshot' in why:
            # the next run is interrupted, too
            common.set_cfg(c13.CFGS[ci])
            files.restore(d, as_state(content, 0))
            snaps2, _ = record(d, lambda: c13.process(d, mode, c13.SOURCES[v]))
            for content2, why2 in crash_states(snaps2, False).items():
                n += 1
                msg = recover(as_state(content2, 0), mode, v, ci)
                if msg:
                    fails.append(f'{describe(spec)}: interrupted ({why}), and again ({why2}); after the next run: '
                                 f'{msg}')
                    break
        # the source changes back or on after the interruption
        if k % 7 == 0 and before is not None:
            w, cj = before
            n += 1
            st = tuple((nm, c13.SOURCES[w] if nm == c13.SRC else c, r) for nm, c, r in as_state(content, 0))
            msg = recover(st, mode, w, cj)
            if msg:
                fails.append(f'{describe(spec)}: interrupted ({why}); after a run on the earlier source: {msg}')
                break
    return dict(fail=fails, n=n, outcomes=[(spec, part, i) for i in range(n)], states=len(states), lines=lines)


class Interrupt(BaseException):
    pass


def interrupts(spec, part, parts, limit):
    """An exception (as upon Ctrl-C) at every line of the transpiler's code."""
    mode, before, v, ci = spec
    state = prior(spec)
    ref = c13.reference(v, ci, mode)
    d = files.workdir('intr')
    fails, n, k = [], 0, part
    tree = common.TREE
    while True:
        common.set_cfg(c13.CFGS[ci])
        files.restore(d, state)
        count = [0]

        def local(frame, event, arg):
            if event == 'line':
                count[0] += 1
                if count[0] == k + 1:
                    raise Interrupt()
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(tree) else None
        done = False
        sys.settrace(glob)
        try:
            c13.process(d, mode, c13.SOURCES[v])
            done = True
        except Interrupt:
            pass
        finally:
            sys.settrace(None)
        if done and count[0] <= k:
            break
        n += 1
        try:
            got = c13.outcome(d, mode, c13.process(d, mode, c13.SOURCES[v]))
            msg = '' if got == ref else f'different result of the next run: {sorted(got[0])}, {got[1]!r}'
            if msg and got[0].keys() == ref[0].keys():
                msg += ' ' + ', '.join(f'{x} differs' for x in got[0] if got[0][x] != ref[0][x])
        except Exception as e:
            msg = 'the next run raises ' + common.describe_exc(e)
        if msg:
            fails.append(f'{describe(spec)}: exception at line event {k}: {msg}')
            break
        k += parts
        if n >= limit:
            break
    return dict(fail=fails, n=n, outcomes=[(spec, 'interrupt', part, i) for i in range(n)])


def faults(spec):
    """The n-th write of a file fails after some bytes (disk full)."""
    import ts2pythonParser
    mode, before, v, ci = spec
    state = prior(spec)
    ref = c13.reference(v, ci, mode)
    d = files.workdir('fault')
    fails, n = [], 0
    for nth in range(4):
        for share in (0.0, 0.3, 0.999, 1.0):
            seen = [0]

            class Faulty:
                def __init__(self, f):
                    self._f = f

                def write(self, data):
                    seen[0] += 1
                    if seen[0] == nth + 1:
                        self._f.write(data[:int(len(data) * share)])
                        raise OSError(28, 'No space left on device')
                    return self._f.write(data)

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    self._f.close()

                def __getattr__(self, name):
                    return getattr(self._f, name)

            def faulty_open(file, mode='r', *args, **kwargs):
                f = open(file, mode, *args, **kwargs)
                return Faulty(f) if set(mode) & set('wax+') else f
            common.set_cfg(c13.CFGS[ci])
            files.restore(d, state)
            ts2pythonParser.open = faulty_open
            try:
                c13.process(d, mode, c13.SOURCES[v])
            except OSError:
                pass
            finally:
                del ts2pythonParser.open
            if seen[0] <= nth:
                break
            n += 1
            msg = recover(files.state_of(files.snapshot(d)), mode, v, ci)
            if msg:
                fails.append(f'{describe(spec)}: write {nth} fails after {share:.0%}: {msg}')
    return dict(fail=fails, n=n, outcomes=[(spec, 'fault', i) for i in range(n)])


def describe(spec):
    mode, before, v, ci = spec
    return (f'{mode}: run on {v} under {c13.CFGS[ci]} ' +
            (f'after a run on {before[0]} under {c13.CFGS[before[1]]}' if before else 'in an empty directory'))


def run_case(case):
    return dict(crash=crashes, interrupt=interrupts, fault=faults)[case[0]](*case[1:])


def main():
    run = common.Run('C14', 'fault_enumeration')
    common.prepare()
    sys.addaudithook(audit_hook)
    specs = []
    for mode in ('default', 'text', 'subdir'):
        for v in VERSIONS:
            specs.append((mode, None, v, 0))
            for w in VERSIONS:
                if w != v:
                    specs.append((mode, (w, 0), v, 0))
            specs.append((mode, (v, 1), v, 2))
            specs.append((mode, ('warn', 1), v, 0))
    specs = list(dict.fromkeys(specs))
    cases = []
    for i, s in enumerate(specs):
        if not common.THOROUGH and s[0] != 'default' and i % 4 != common.SEED % 4:
            continue
        parts = 8 if common.THOROUGH else 2
        cases += [('crash', s, common.THOROUGH, p, parts, common.THOROUGH or i % 5 == common.SEED % 5)
                  for p in range(parts)]
        if common.THOROUGH or i % 3 == common.SEED % 3:
            parts = 4 if common.THOROUGH else 40
            cases += [('interrupt', s, p, parts, 10 ** 6) for p in range((i + common.SEED) % parts, parts,
                                                                         1 if common.THOROUGH else 40)]
        cases.append(('fault', s))
    lines = 0
    for idx, res in common.pmap(run_case, cases, chunk=1, stop=run.too_many):
        run.evaluations += res.get('n', 1)
        run.nontrivial.update(res.get('outcomes', ()))
        lines = max(lines, res.get('lines', 0))
        for f in res.get('fail', ()):
            run.fail(cases[idx], f)
    run.extra['observed_lines_per_run'] = lines
    run.extra['histories'] = len(specs)
    for c in cases[:1] + cases[-1:]:
        run.sample(dict(kind=c[0], history=describe(c[1])))
    run.rule = ('every directory content observable between two lines of Python code while the file processor runs, '
                'every torn prefix of every file written (quick: all prefixes of message files, of the output those '
                'at line boundaries, around the hash and at the end), an exception at lines of the transpiler (quick: '
                'every 40th), and failing writes; non-trivial: distinct (history, crash state); after each the next '
                'run is executed and compared with a run in a clean directory')
    return run
