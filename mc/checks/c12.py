"""C12: concurrent transpilations do not disturb each other."""
import os
import sys

import common
import explorer
from checks import c11, c07

DOCS = (
    ('interface A { a: string | { x: B }; f(b: { y: A }): T }\nexport type T = A | "x";', dict()),
    ('enum A { x, y = 3 }\nnamespace B { export const a: number = 1; export const c: A; }',
     dict(UseEnum=False, RenderAnonymous='functional', UseTypeUnion=True)),
    ('/**\n * doc\n */\ninterface B<T> extends A { a?: T; c: [A, T] }\nclass A { m<S>(a: S): { z?: T } }',
     dict(UseLiteralType=True, UseNotRequired=True, KeepMultilineComments=True, RenderAnonymous='toplevel')),
    ('export function f(a: A): B;\nexport function f(a: "s" | 3): A;\ntype A = { b: { c: "s" } };',
     dict(ClassDecorator='@deco', UseLiteralType=True, BaseClassName='')),
    ('interface A { a: { b: string ', dict(RenderAnonymous='toplevel')),
)
WARMUP = ('namespace W { interface A { q?: { r: string } } }\ntype B = "w" | A;', dict(UseTypeUnion=True))
FRESH = {}
COARSE = ('transform.py', 'compile.py', 'pipeline.py', 'preprocess.py', 'error.py')


def perform(d):
    try:
        code, errs = common.transpile(d[0], d[1])
        return common.strip_stamp(code), errs
    except Exception as e:
        return type(e).__name__, str(e)


TRACED = {}


def traced(kind):
    if kind in TRACED:
        return TRACED[kind]
    cache = {}

    def f(filename):
        r = cache.get(filename)
        if r is None:
            name = os.path.basename(filename)
            if filename.startswith(common.TREE) and name == 'ts2pythonParser.py':
                r = kind
            elif kind != 'call' and name in COARSE and 'DHParser' in filename:
                r = 'call'
            else:
                r = ''
            cache[filename] = r
        return r
    TRACED[kind] = f
    return f


def one(pair, mode, kind, schedule, first=0):
    """One execution; returns (message, points of the threads)."""
    def before(i):
        if mode == 'warm':
            perform(WARMUP)
    ex = explorer.Execution([lambda d=DOCS[k]: perform(d) for k in pair], traced(kind), schedule, first,
                            timeout=20)
    res = ex.run(before)
    for i, k in enumerate(pair):
        if ex.deadlock:
            return 'no termination', ex.points
        if res[i] != FRESH[k]:
            got = res[i] if isinstance(res[i][0], (str, type(None))) and res[i][0] != 'EXCEPTION' else None
            how = c11.diff(FRESH[k], got) if got else str(res[i])
            return f'thread {i}: {how} (switches (from, to, point): {ex.switches})', ex.points
    return '', ex.points


def check_after(pair):
    for k in set(pair):
        out = perform(DOCS[k])
        if out != FRESH[k]:
            return 'afterwards in another thread: ' + c11.diff(FRESH[k], out)
    return ''


def run_case(case):
    pair, mode, kind, schedules = case

    def run():
        n, pts = 0, 0
        for first, sch in schedules:
            if mode == 'cold':
                msg, p = c11.in_child(lambda: one(pair, mode, kind, list(sch), first))
            else:
                msg, p = one(pair, mode, kind, list(sch), first)
            if msg == 'no termination':     # only if it does so again
                msg, p = c11.in_child(lambda: one(pair, 'cold' if mode == 'cold' else 'warm', kind, list(sch), first))
            n += 1
            pts += sum(p)
            if not msg and mode != 'cold' and n == len(schedules):
                msg = check_after(pair)
            if msg:
                return n, pts, f'documents {[DOCS[k] for k in pair]}, {mode} start, first thread {first}, ' \
                               f'schedule {sch}: {msg}'
        return n, pts, ''
    n, pts, msg = c11.in_child(run)
    return dict(n=n, fail=[msg] if msg else [], outcomes=[(pair, mode, kind, s) for s in schedules], points=pts)


def main():
    run = common.Run('C12')
    explorer.install()
    common.prepare()
    for k in range(len(DOCS)):
        FRESH[k] = c11.in_child(lambda: perform(DOCS[k]))
    cases, total = [], 0

    def add(pair, mode, kind, schedules, size=40):
        schedules = list(schedules)
        for i in range(0, len(schedules), size):
            cases.append((pair, mode, kind, tuple(schedules[i:i + size])))

    def length(pair, mode, kind):
        return c11.in_child(lambda: one(pair, mode, kind, [], 0))[1]
    pairs = [(i, j) for i in range(len(DOCS)) for j in range(len(DOCS))]
    lens = {}
    for pair in pairs:
        # one preemption: at every line of the transpiler's code
        pts = length(pair, 'warm', 'line')
        lens[pair] = pts
        step = 1 if common.THOROUGH else 7 if pair[0] != pair[1] else 14
        off = (pair[0] + pair[1] + common.SEED) % step
        add(pair, 'warm', 'line', ((0, ((k, 1),)) for k in range(off, pts[0], step)))
    for n, pair in enumerate(((0, 2), (2, 1), (1, 0), (3, 2), (4, 0))):
        pts = length(pair, 'cold', 'line')
        step = 1 if common.THOROUGH else 29
        add(pair, 'cold', 'line', ((0, ((k, 1),)) for k in range((n + common.SEED) % step, pts[0], step)), 10)
        # two preemptions: at calls
        if n < (5 if common.THOROUGH else 2):
            pts = length(pair, 'warm', 'call')
            step = 2 if common.THOROUGH else 13
            off = (n + common.SEED) % step
            add(pair, 'warm', 'call', ((0, ((k, 1), (j, 0))) for k in range(off, pts[0], step)
                                       for j in range(off, pts[1], step)), 100)
        if common.THOROUGH:
            pts = length(pair, 'warm', 'opcode')
            add(pair, 'warm', 'opcode', ((0, ((k, 1),)) for k in range(pts[0])), 60)
    run.states = sum(len(c[3]) for c in cases)
    for idx, res in common.pmap(run_case, cases, chunk=1, stop=run.too_many):
        run.traces += res.get('n', 1)
        run.evaluations += res.get('n', 1)
        run.transitions += res.get('points', 0)
        run.nontrivial.update(res.get('outcomes', ()))
        for f in res.get('fail', ()):
            run.fail(cases[idx], f)
    run.extra['scheduling_points'] = {str(k): v for k, v in list(lens.items())[:8]}
    for c in (cases[0], cases[-1]):
        run.sample(dict(documents=[DOCS[k] for k in c[0]], start=c[1], granularity=c[2], schedule=c[3][0]))
    run.rule = ('states: schedules of two threads - every single preemption at line events of ts2pythonParser.py and '
                'calls of the transformation and compilation machinery (quick: every 7th, rotating), from warm and '
                'cold starts, two preemptions at calls (quick: every 13th call of either thread) - transitions: '
                'scheduling points passed; each execution on the real code under a controlled scheduler')
    return run
