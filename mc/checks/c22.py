"""C22: first use of dispatchers and validators is safe under concurrency."""
import itertools
import os
import sys

import common
import explorer
from checks import c11

SHARED = '''
from typing import *
from enum import Enum
from ts2python.typeddict_shim import TypedDict
from ts2python.json_validation import type_check, validate_type
from ts2python.singledispatch_shim import singledispatch, singledispatchmethod
class E(Enum):
    a = %s
    b = 's'
class P(TypedDict):
    x: 'E'
    l: Optional[List['P']]
    u: Union['P', 'E', None]
    d: Optional[Dict[str, 'P']]
class Q(P, TypedDict):
    y: 'P'
@type_check
def g(p: 'P', *l: List['P']) -> Optional['P']:
    return p
@singledispatch
def f(x, *a):
    raise TypeError('f')
@f.register
def f_1(x: 'A', *a):
    return 'A'
@f.register
def f_2(x: Union['B', int], *a):
    return 'B or int'
@f.register
def f_3(x: 'Optional[C]', *a):
    return 'C or None'
@f.register
def f_4(x: str, *a):
    return 'str'
class H:
    @singledispatchmethod
    def m(self, x):
        raise TypeError('m')
    @m.register
    def m_1(self, x: 'A'):
        return 'A'
    @m.register
    def m_2(self, x: Union['B', 'C']):
        return 'B or C'
class A:
    pass
class B(A):
    pass
class C:
    pass
class D(C):
    pass
h = H()
'''
TS = '''enum E { a = %s, b = "s" }
interface P { x: E; l?: P[]; u?: P | E; k: { z: E; p?: P } }
function f(a: A): string;
function f(a: B | number): number;
function f(a: string): A;
class A { m(a: A): void; m(a: B): string; n: number }
class B extends A { o(a: P): B }
'''
OPS = {
    'f A': lambda m: m.f(m.A(), 1), 'f B': lambda m: m.f(m.B()), 'f D': lambda m: m.f(m.D()), 'f int': lambda m: m.f(3),
    'f True': lambda m: m.f(True), 'f None': lambda m: m.f(None), 'f str': lambda m: m.f('a'),
    'f list': lambda m: m.f([]), 'dispatch': lambda m: m.f.dispatch(m.B).__name__, 'm A': lambda m: m.h.m(m.A()),
    'm D': lambda m: m.h.m(m.D()), 'm B': lambda m: m.H().m(m.B()), 'm int': lambda m: m.h.m(3),
    'P ok': lambda m: m.validate_type({'x': 's', 'l': [{'x': 's'}], 'u': 's', 'd': {'k': {'x': 's'}}}, m.P),
    'P wrong': lambda m: m.validate_type({'x': 's', 'l': [{'x': 'z'}]}, m.P),
    'P one': lambda m: m.validate_type({'x': 1, 'u': {'x': 1}}, m.P),
    'Q ok': lambda m: m.validate_type({'x': 's', 'y': {'x': 's', 'l': []}}, m.Q),
    'Q wrong': lambda m: m.validate_type({'x': 's', 'y': {'x': 's', 'l': [1]}}, m.Q),
    'E s': lambda m: m.validate_type('s', m.E), 'E 1': lambda m: m.validate_type(1, m.E),
    'g ok': lambda m: m.g({'x': 's'}, [{'x': 's'}]), 'g one': lambda m: m.g({'x': 1}, [{'x': 1}]),
    'g wrong': lambda m: m.g({'x': 's'}, [{'y': 's'}]),
    'g then f': lambda m: (m.g({'x': 's'}), m.f(m.C()), m.f(3)),
    # generated modules
    't f A': lambda m: m.f(m.A()), 't f int': lambda m: m.f(3), 't f B': lambda m: m.f(m.B()),
    't f None': lambda m: m.f(None), 't m A': lambda m: m.A().m(m.A()), 't m B': lambda m: m.B().m(m.B()),
    't P ok': lambda m: m.validate_type({'x': 's', 'l': [], 'k': {'z': 's'}}, m.P),
    't P wrong': lambda m: m.validate_type({'x': 's', 'l': [], 'k': {'z': 'z'}}, m.P),
    't P one': lambda m: m.validate_type({'x': 1, 'l': [], 'k': {'z': 1}}, m.P),
}
# registrations in the course of calls
OPS.update({
    'reg A': lambda m: m.f.register(m.A)(lambda x, *a: 'new A') and None,
    'reg D': lambda m: m.f.register(m.D)(lambda x, *a: 'new D') and None,
    'reg int': lambda m: m.f.register(int, lambda x, *a: 'new int') and None,
    'reg bool': lambda m: m.f.register(bool, lambda x, *a: 'new bool') and None,
    "reg 'B'": lambda m: registered_by_annotation(m.f, 'B'),
    "reg 'Optional[A]'": lambda m: registered_by_annotation(m.f, 'Optional[A]'),
    "m reg 'A'": lambda m: registered_by_annotation(m.H.__dict__['m'], 'A', True),
    'm reg D': lambda m: m.H.__dict__['m'].register(m.D, lambda self, x: 'new D') and None,
})
# calls for which the same call has already been made before the threads start
WARM = {'w ' + k: OPS[k] for k in ('f A', 'f D', 'f int', 'f list', 'm A', 'P ok', 'E s')}
OPS.update(WARM)
_sources = {}


def registered_by_annotation(f, annotation, method=False):
    if method:
        def new(self, x):
            return 'new ' + annotation
    else:
        def new(x, *a):
            return 'new ' + annotation
    new.__annotations__['x'] = annotation
    f.register(with_globals(new, f, method))


def with_globals(new, f, method):
    """Names are looked up in the module of the generic function."""
    func = (f.func if method else f.__wrapped__)
    res = type(new)(new.__code__, func.__globals__, 'new', new.__defaults__, new.__closure__)
    res.__annotations__ = dict(new.__annotations__)
    return res


def module(kind, n):
    """A fresh module; modules of different numbers have equal names for different types."""
    if (kind, n) not in _sources:
        value = ('1', '"q"')[n]
        text = SHARED % value if kind == 'hand' else \
            common.transpile(TS % value, dict())[0] + '\nfrom ts2python.json_validation import validate_type\n'
        _sources[kind, n] = compile(text, f'generated_{n}.py', 'exec')
    return common.load_module(_sources[kind, n])


def outcome(func):
    try:
        return 'returns', func()
    except Exception as e:
        return 'raises', type(e).__name__


TRACED = {}


def traced(kind, modules):
    """Programs with two modules are interrupted within typing's treatment of forward references, too."""
    if (kind, modules) not in TRACED:
        def f(code):
            if code.co_filename.startswith(common.TREE) and os.path.basename(code.co_filename) in (
                    'json_validation.py', 'singledispatch_shim.py', 'typeddict_shim.py'):
                return kind
            if modules > 1 and os.path.basename(code.co_filename) == 'typing.py' and code.co_name == '_evaluate':
                return kind
            return ''
        f.by_code = True
        TRACED[kind, modules] = f
    return TRACED[kind, modules]


def execute(program, schedule, kind='line', first=0):
    """program: ((module number, operations), ...), one entry per thread."""
    sort = 'gen' if program[0][1][0].startswith('t ') else 'hand'
    mods = {n: module(sort, n) for n in sorted({n for n, _ in program})}

    for n, ops in program:
        for o in ops:
            if o in WARM:
                outcome(lambda: OPS[o](mods[n]))

    def thread(n, ops):
        return lambda: [outcome(lambda: OPS[o](mods[n])) for o in ops]
    try:
        ex = explorer.Execution([thread(n, ops) for n, ops in program], traced(kind, len(mods)), schedule, first, timeout=20)
        ex.run()
        results = ex.results if not ex.deadlock else 'no termination'
        after = [] if ex.deadlock else [[outcome(lambda: OPS[o](mods[n])) for o in ops] for n, ops in program]
    finally:
        for m in mods.values():
            common.unload(m)
    return results, after, ex


_alone = {}


def alone(program):
    """What the threads get if they run one after the other (in any order)."""
    if program not in _alone:
        res = []
        for first in range(len(program)):
            r, after, _ = execute(program, [], first=first)
            res.append((r, after))
        assert all(r == res[0] for r in res) or registers(program), (program, res)
        _alone[program] = res
    return _alone[program]


def run_case(case):
    program, kind, schedules = case
    allowed = alone(program)
    n, pts = 0, 0
    for first, sch in schedules:
        got, after, ex = execute(program, list(sch), kind, first)
        if ex.deadlock:         # only if it does so again
            got, after, ex = execute(program, list(sch), kind, first)
        n += 1
        pts += sum(ex.points)
        if (got, after) not in allowed:
            return dict(n=n, points=pts, fail=[
                f'threads {program}, first {first}, preemptions after {sch} scheduling points ({kind}s): outcomes '
                f'{got}, afterwards {after} instead of {" or ".join(map(str, allowed))}'])
    return dict(n=n, points=pts, outcomes=[(program, kind, s) for s in schedules])


def registers(program):
    return any('reg ' in op for _, ops in program for op in ops)


def programs():
    """Groups of programs: (programs, depth class)."""
    f = ('f A', 'f B', 'f D', 'f int', 'f None', 'f list', 'dispatch')
    res = []
    for a, b in itertools.product(f, repeat=2):
        res.append(((0, (a,)), (0, (b,))))
    for a, b in itertools.product(('m A', 'm D', 'm B', 'm int'), repeat=2):
        res.append(((0, (a,)), (0, (b,))))
    for a, b in itertools.product(('P ok', 'P wrong', 'Q ok', 'Q wrong', 'E s', 'E 1', 'g ok', 'g wrong'), repeat=2):
        res.append(((0, (a,)), (0, (b,))))
    # two modules that share names and typing constructs
    for a, b in itertools.product(('P one', 'P ok', 'Q wrong', 'E 1', 'g one'), repeat=2):
        res.append(((0, (a,)), (1, (b,))))
    for a, b in itertools.product(('f A', 'f B', 'f int', 'm D'), repeat=2):
        res.append(((0, (a,)), (1, (b,))))
    res.append(((0, ('g then f',)), (0, ('f D', 'g ok', 'm A'))))
    res.append(((0, ('f True', 'f str')), (0, ('f str', 'f True'))))
    for a, b in itertools.product(('t f A', 't f int', 't f B', 't f None', 't m A', 't m B', 't P ok', 't P wrong'),
                                  repeat=2):
        if a.split()[1] == b.split()[1]:
            res.append(((0, (a,)), (0, (b,))))
    for a, b in itertools.product(('f A', 'f B', 'f D', 'f int', 'f True', 'dispatch'),
                                  ('reg A', 'reg D', 'reg int', 'reg bool', "reg 'B'", "reg 'Optional[A]'")):
        res.append(((0, (a,)), (0, (b,))))
    for a, b in itertools.product(('m A', 'm D', 'm B'), ("m reg 'A'", 'm reg D')):
        res.append(((0, (a,)), (0, (b,))))
    for a, b in itertools.product(('w f A', 'w f D', 'w f int', 'w f list'),
                                  ('reg A', 'reg int', "reg 'B'", "reg 'Optional[A]'", 'f B', 'f D')):
        res.append(((0, (a,)), (0, (b,))))
    for a, b in (('w m A', "m reg 'A'"), ('w m A', 'm reg D'), ('w P ok', 'Q wrong'), ('w E s', 'E s')):
        res.append(((0, (a,)), (0, (b,))))
    for a, b in (('reg A', "reg 'B'"), ("reg 'Optional[A]'", 'reg A'), ('reg D', "reg 'B'")):
        res.append(((0, (a, 'f B')), (0, (b, 'f B'))))
    for a, b in (('t P one', 't P one'), ('t f int', 't f B'), ('t f A', 't f A')):
        res.append(((0, (a,)), (1, (b,))))
    return res


def main():
    run = common.Run('C22')
    explorer.install()
    common.prepare()
    progs = programs()
    three = [((0, ('f A',)), (0, ('f B',)), (0, ('f int',))), ((0, ('P ok',)), (0, ('P wrong',)), (0, ('Q ok',))),
             ((0, ('P one',)), (1, ('P ok',)), (0, ('g ok',))), ((0, ('f A',)), (1, ('f B',)), (0, ('f D',)))]
    lens = c11.in_child(lambda: {p: {k: execute(p, [], k)[2].points for k in ('line', 'opcode')}
                                 for p in progs + three})
    cases = []

    def add(program, kind, schedules, size=150):
        schedules = list(schedules)
        for i in range(0, len(schedules), size):
            cases.append((program, kind, tuple(schedules[i:i + size])))
    T = common.THOROUGH
    for i, p in enumerate(progs):
        line, op = lens[p]['line'], lens[p]['opcode']
        run.states += 1
        add(p, 'line', ((f, ((k, 1 - f),)) for f in (0, 1) for k in range(line[f] + 1)))
        step = 1 if T else 8
        add(p, 'opcode', ((0, ((k, 1),)) for k in range((i + common.SEED) % step, op[0], step)))
        step = 1 if T else 10
        if T and i % 3 == 0 or not T and i % 8 == common.SEED % 8:
            add(p, 'line', ((0, ((k, 1), (j, 0))) for k in range((i + common.SEED) % step, line[0], step)
                            for j in range((i * 7 + common.SEED) % step, line[1], step)))
    for i, p in enumerate(three):
        line = lens[p]['line']
        step = 3 if T else 17
        off = (i + common.SEED) % step
        add(p, 'line', ((0, ((k, a), (j, b))) for a, b in ((1, 2), (2, 1), (1, 0), (2, 0))
                        for k in range(off, line[0], step) for j in range(off, line[a], step)))
    run.exhaustive = T
    for idx, res in common.pmap(run_case, cases, chunk=1, stop=run.too_many):
        run.traces += res.get('n', 1)
        run.evaluations += res.get('n', 1)
        run.transitions += res.get('points', 0)
        run.nontrivial.update(res.get('outcomes', ()))
        for f in res.get('fail', ()):
            run.fail(cases[idx], f)
    run.states = run.traces
    run.extra['programs'] = len(progs) + len(three)
    run.extra['scheduling_points'] = {str(k): v for k, v in list(lens.items())[::20]}
    for c in (cases[0], cases[-1]):
        run.sample(dict(threads=c[0], granularity=c[1], schedule=c[2][0]))
    run.rule = ('states: schedules of two or three threads that use a module in which nothing has been resolved yet - '
                'every single preemption at lines, every preemption at byte code instructions and pairs of preemptions '
                'at lines (quick: a part of them) of the dispatcher, the validator, the TypedDict replacement and the '
                'module typing; transitions: scheduling points passed; each on the real code under a controlled '
                'scheduler')
    return run
