"""C15: batch processing equals processing each file on its own."""
import itertools
import os
import threading

import common
import explorer
import files
from checks import c12, c13

DOCS = ('ok1', 'warn', 'err', 'all', 'mark')
NAMES = ('x/a.ts', 'x/b.ts', 'y/c.ts', 'd.d.ts') + tuple(f'{"xyz"[i % 3]}/f{i}.ts' for i in range(4, 40))
CFGS = (0, 2, 4)


class Future:
    """Result of a job that is executed later."""

    def __init__(self, pool, func, args):
        self.pool, self.func, self.args = pool, func, args
        self.done, self.value, self.error = False, None, None

    def execute(self):
        if not self.done:
            self.done = True
            try:
                self.value = self.func(*self.args)
            except Exception as e:
                self.error = e

    def result(self, timeout=None):
        if not self.done:
            self.pool.execute()
        if self.error:
            raise self.error
        return self.value


class Pool:
    """Executes the submitted jobs in a given order - on submission as soon as the order
    allows it (eager) or not before the first result is asked for."""

    def __init__(self, order, eager):
        self.order, self.eager, self.jobs = order, eager, []

    def submit(self, func, *args):
        self.jobs.append(Future(self, func, args))
        if self.eager:
            self.execute(False)
        return self.jobs[-1]

    def execute(self, final=True):
        for k in self.order:
            if k >= len(self.jobs):
                if not final:
                    return
                continue
            self.jobs[k].execute()


def alone(d, name, v, ci, out):
    """The outcome of processing a file on its own: contents of files, returned name."""
    import ts2pythonParser
    common.set_cfg(c13.CFGS[ci])
    files.restore(d, ((name, c13.SOURCES[v], 0),))
    os.mkdir(os.path.join(d, out))
    cwd = os.getcwd()
    os.chdir(d)
    try:
        base = os.path.splitext(os.path.basename(name))[0]
        ret = ts2pythonParser.process_file(name, os.path.join(out, base + '.py'))
    finally:
        os.chdir(cwd)
    return {n: files.strip(c) for n, (c, _, _) in files.snapshot(d).items() if n != name}, ret


_alone = {}


def expected(docs, ci, out='out'):
    res, rets = {}, []
    for i, v in enumerate(docs):
        key = (NAMES[i], v, ci, out)
        if key not in _alone:
            _alone[key] = alone(files.workdir('alone'), NAMES[i], v, ci, out)
        f, r = _alone[key]
        res.update(f)
        if r:
            rets.append(r)
    return res, rets


def batch(d, docs, ci, before, **kw):
    """Runs batch_process; returns (files, list of names)."""
    import ts2pythonParser
    state = tuple((NAMES[i], c13.SOURCES[v], 0) for i, v in enumerate(docs)) + before
    common.set_cfg(c13.CFGS[ci])
    files.restore(d, state)
    os.makedirs(os.path.join(d, 'out'), exist_ok=True)
    cwd = os.getcwd()
    os.chdir(d)
    try:
        rets = ts2pythonParser.batch_process([NAMES[i] for i in range(len(docs))], 'out', **kw)
    finally:
        os.chdir(cwd)
    res = {n: files.strip(c) for n, (c, _, _) in files.snapshot(d).items() if n not in NAMES}
    return res, list(rets)


def compare(got, want, what):
    if got == want:
        return []
    parts = [n for n in set(got[0]) | set(want[0]) if got[0].get(n) != want[0].get(n)]
    msg = ', '.join(f'{n} ' + ('missing' if n not in got[0] else 'superfluous' if n not in want[0] else 'differs')
                    for n in sorted(parts))
    return [f'{what}: {msg} reported {got[1]} instead of {want[1]}']


def earlier(docs, kind):
    """Results of an earlier batch in the output directory."""
    if not kind:
        return ()
    old = {'same': docs, 'other': tuple(DOCS[(DOCS.index(v) + 1) % len(DOCS)] for v in docs)}[kind]
    return tuple((n, t.encode(), 0) for n, t in expected(old, 0)[0].items())


def orders(case):
    docs, ci, kind = case
    want = expected(docs, ci)
    before = earlier(docs, kind)
    n, fails, outs = 0, [], []
    k = len(docs)
    for order in itertools.permutations(range(k)) if k < 5 else \
            (tuple(range(k)), tuple(reversed(range(k))), tuple(range(k // 2, k)) + tuple(range(k // 2)),
             tuple(range(0, k, 2)) + tuple(range(1, k, 2))):
        for eager in (False, True):
            pool = Pool(order, eager)
            log = []
            got = batch(files.workdir('batch'), docs, ci, before, submit_func=pool.submit, log_func=log.append)
            n += 1
            what = f'documents {docs}, configuration {c13.CFGS[ci]}, earlier results: {kind}, jobs executed in the ' \
                   f'order {order}'
            fails += compare(got, want, what)
            outs.append((docs, ci, kind, order, eager))
            if fails:
                return dict(fail=fails, n=n)
    return dict(fail=fails, n=n, outcomes=outs)


def pools(case):
    """The executors batch_process chooses by itself."""
    from DHParser.configuration import set_config_value
    docs, ci, mode = case
    want = expected(docs, ci)
    set_config_value('batch_processing_parallelization', mode != 'single')
    got = batch(files.workdir('batch'), docs, ci, ())
    set_config_value('batch_processing_parallelization', True)
    return dict(n=1, fail=compare(got, want, f'documents {docs}, configuration {c13.CFGS[ci]}, {mode} executor'),
                outcomes=[case])


def schedules(case):
    """Two jobs in threads under a controlled scheduler."""
    docs, points = case
    want = expected(docs, 0)
    n, fails = 0, []
    for first, k in points:
        class Threads:
            def __init__(self):
                self.jobs = []

            def submit(self, func, *args):
                self.jobs.append(Future(self, func, args))
                return self.jobs[-1]

            def execute(self):
                ex = explorer.Execution([j.execute for j in self.jobs], c12.traced('line'), [(k, 1 - first)], first,
                                        timeout=20)
                ex.run()
                self.points = ex.points
        pool = Threads()
        got = batch(files.workdir('batch'), docs, 0, (), submit_func=pool.submit)
        n += 1
        fails += compare(got, want, f'documents {docs}, job {first} interrupted at scheduling point {k} by the other')
        if fails:
            break
    return dict(fail=fails, n=n, outcomes=[(docs, p) for p in points])


def run_case(case):
    return dict(orders=orders, pools=pools, schedules=schedules)[case[0]](case[1])


def main():
    run = common.Run('C15')
    explorer.install()
    common.prepare()
    cases = []
    size = 4 if common.THOROUGH else 3
    for n in range(1, size + 1):
        for i, docs in enumerate(itertools.product(DOCS, repeat=n)):
            for c, ci in enumerate(CFGS):
                for k, kind in enumerate(('', 'same', 'other')):
                    if common.THOROUGH or n < 3 or (i + c * 5 + k) % 6 == common.SEED % 6:
                        cases.append(('orders', (docs, ci, kind)))
    # long lists of files
    for n in (5, 8, 9, 16, 17, 33):
        for i in range(len(DOCS)):
            docs = tuple(DOCS[(i * (j % 3) + j // 2) % len(DOCS)] for j in range(n))
            cases.append(('orders', (docs, CFGS[(i + n) % 3], ('', 'same', 'other')[(i + n + common.SEED) % 3])))
            if n in (9, 33) and (common.THOROUGH or i % 2 == common.SEED % 2):
                cases.append(('pools', (docs, CFGS[i % 3], 'default')))
    run.states = len(cases)
    for docs in (DOCS[:3], DOCS[1:5], ('err',), ('warn', 'ok1', 'warn')):
        for ci in CFGS:
            for mode in ('default', 'single'):
                cases.append(('pools', (docs, ci, mode)))
    step = 2 if common.THOROUGH else 9
    for i, docs in enumerate((('ok1', 'err'), ('warn', 'all'), ('all', 'all'), ('err', 'warn'))):
        pts = [(f, k) for f in (0, 1) for k in range((i + common.SEED) % step, 2400, step)]
        for k in range(0, len(pts), 25):
            cases.append(('schedules', (docs, tuple(pts[k:k + 25]))))
    cases.sort(key=lambda c: c[0] != 'pools')
    common.execute(run, cases, run_case, chunk=1)
    run.transitions = run.traces
    for c in (cases[0], cases[-1], [c for c in cases if c[0] == 'orders'][-1]):
        run.sample(dict(kind=c[0], case=c[1]))
    run.rule = ('states: (list of documents, configuration, earlier contents of the output directory); transitions: '
                'batches - all orders in which up to 4 jobs (some orders of up to 33) may be executed, on submission or later, the executors of '
                'batch_process itself, and pairs of jobs in threads with a preemption at lines of the transpiler')
    return run
