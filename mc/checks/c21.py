"""C21: overloaded functions dispatch like functools on resolved types."""
import functools
import itertools
import re

import common

PRE = '''
from typing import *
from abc import ABC
class M(ABC):
    pass
class Base:
    pass
'''
# definitions: step -> (source, names it needs)
DEFINE = {'A': ('class A(Base):\n    pass', ()), 'B': ('class B(A):\n    pass', ('A',)),
          'C': ('class C(Base, M):\n    pass', ()), 'D': ('class D(int):\n    pass', ()),
          'virtual': ('M.register(A)', ('A',)), 'virtual list': ('M.register(list)', ())}
# annotation -> (classes it means, names that must have been defined when it is evaluated)
ANNOTATIONS = {
    '"A"': ('A',), '"B"': ('B',), '"C"': ('C',), 'Base': ('Base',), 'M': ('M',), 'int': ('int',),
    'Union["A", "C"]': ('A', 'C'), '"Union[B, int]"': ('B', 'int'), '"A | None"': ('A', 'None'),
    'Optional["B"]': ('B', 'None'), 'Union["B", int, str]': ('B', 'int', 'str'), 'List["A"]': ('list',),
    '"A | List[B]"': ('A', 'list'), 'int | str': ('int', 'str'), '"D"': ('D',), 'Union["A", Base]': ('A', 'Base'),
    '"object"': ('object',),
}
class Proxy:
    """Stands for an integer, like the proxies of mocking libraries."""
    __class__ = property(lambda self: int)


ARGS = ('A', 'B', 'C', 'D', 'Base', 'int', 'bool', 'str', 'None', 'list', 'dict', 'proxy')
PLAIN = {'proxy': Proxy(), 'int': 3, 'bool': True, 'str': 'a', 'None': None, 'list': [1], 'dict': {}}
BUILTIN = {'proxy': int, 'int': int, 'bool': bool, 'str': str, 'None': type(None), 'list': list, 'dict': dict, 'object': object}


def step_names():
    defs = [('def', d) for d in DEFINE]
    regs = [('reg', a) for a in ANNOTATIONS]
    direct = [('direct', c) for c in ('A', 'Base', 'int')]
    calls = [('call', a) for a in ('A', 'B', 'int', 'None')] + [('calls', '')]
    return defs + regs + direct + calls


STEPS = step_names()
GROUPS = {      # alphabets for the deeper levels
    'late': [('def', 'A'), ('def', 'B'), ('reg', '"A"'), ('reg', '"B"'), ('reg', 'Base'), ('call', 'A'),
             ('call', 'B'), ('call', 'int')],
    'union': [('def', 'A'), ('def', 'B'), ('reg', '"A | None"'), ('reg', 'Optional["B"]'), ('reg', 'Union["A", Base]'),
              ('call', 'A'), ('call', 'None'), ('calls', '')],
    'abc': [('def', 'A'), ('def', 'C'), ('def', 'virtual'), ('reg', 'M'), ('reg', '"C"'), ('reg', 'Base'),
            ('call', 'A'), ('calls', '')],
    'plain': [('reg', 'int'), ('reg', 'int | str'), ('reg', '"Union[B, int]"'), ('def', 'A'), ('def', 'B'),
              ('direct', 'int'), ('call', 'int'), ('calls', '')],
    'list': [('def', 'A'), ('def', 'B'), ('reg', 'List["A"]'), ('reg', '"A | List[B]"'), ('def', 'virtual list'),
             ('reg', 'M'), ('call', 'list'), ('calls', '')],
}
_code = {}


def code(text):
    if text not in _code:
        _code[text] = compile(text, '<generated>', 'exec')
    return _code[text]


class World:
    """A module with a generic function, and the reference for it."""

    def __init__(self, kind):
        from ts2python import singledispatch_shim as sd
        self.kind = kind
        self.ns = {'__name__': 'world', 'sd': sd}
        exec(code(PRE), self.ns)
        if kind == 'function':
            exec(code('@sd.singledispatch\ndef f(x, *a, **k):\n    return "default", x, a, k\nreg = f.register'), self.ns)
        else:
            exec(code('class H:\n    def __len__(self): return 0\n    @sd.singledispatchmethod\n    def f(self, x, *a, **k):\n'
                      '        return "default", x, a, k if self is h else self\nh = H()\n'
                      'reg = H.__dict__["f"].register\n'
                      'def f(*a, **k): return h.f(*a, **k)\n'), self.ns)
        if kind == 'function':
            self.early = self.ns['f'].registry
        self.entries = []       # (tag, classes, names in the annotation)
        self.count = 0

    def enabled(self, step):
        k, x = step
        if k == 'def':
            return (x not in self.ns if x in ARGS else x not in self.ns.setdefault('DONE', set())) and \
                all(n in self.ns for n in DEFINE[x][1])
        if k == 'reg':
            return True
        if k == 'direct':
            return x in BUILTIN or x in self.ns
        if k == 'call':
            return x in PLAIN or x in self.ns
        return True

    def perform(self, step):
        k, x = step
        ns = self.ns
        if k == 'def':
            exec(code(DEFINE[x][0]), ns)
            if x not in ARGS:
                ns['DONE'].add(x)
        elif k in ('reg', 'direct'):
            self.count += 1
            tag = f'g{self.count}'
            first = 'x' if self.kind == 'function' else 'self, x'
            ann = ': ' + x if k == 'reg' else ''
            ks = 'k' if self.kind == 'function' else 'k if self is h else self'
            exec(code(f'def {tag}({first}{ann}, *a, **k):\n    return {tag!r}, x, a, {ks}\n'), ns)
            if k == 'reg':
                res = ns['reg'](ns[tag])
                self.entries.append((tag, ANNOTATIONS[x], set(re.findall(r'\b[ABCD]\b', x))))
            else:
                cls = BUILTIN.get(x) or ns[x]
                res = ns['reg'](cls, ns[tag]) if self.count % 2 else ns['reg'](cls)(ns[tag])
                self.entries.append((tag, (x,), ()))
            if res is not ns[tag]:
                return [f'registering with {x} does not return the function']
        elif k == 'call':
            return self.call(x)
        else:
            return [m for a in ARGS if self.enabled(('call', a)) for m in self.call(a)] + self.misuse()
        return []

    def cls(self, name):
        return BUILTIN.get(name) or self.ns.get(name)

    def choice(self, cls, entries):
        registry = {object: 'default'}
        for tag, classes, _ in entries:
            for c in classes:
                c = self.cls(c)
                if c is not None:
                    registry[c] = tag
        return functools._find_impl(cls, registry)

    def allowed(self, cls):
        """Tags of the implementations that may be selected, NameError included."""
        resolved = [e for e in self.entries if all(self.cls(c) for c in e[2])]
        try:
            res = {self.choice(cls, resolved)}
            if len(resolved) < len(self.entries):
                res |= {self.choice(cls, self.entries), 'NameError'}
        except RuntimeError:        # ambiguous
            return {'RuntimeError', 'NameError'} if len(resolved) < len(self.entries) else {'RuntimeError'}
        return res

    def call(self, name):
        cls = self.cls(name)
        arg = PLAIN[name] if name in PLAIN else cls()
        want = self.allowed(cls)
        try:
            tag, x, a, k = self.ns['f'](arg, 1, 2, k=3)
            got = tag
            if x is not arg or a != (1, 2) or k != {'k': 3}:
                return [f'call with {name}: received {x!r} {a} {k}']
        except (NameError, RuntimeError) as e:
            got = type(e).__name__
        except Exception as e:
            got = common.describe_exc(e)
        if got not in want:
            return [f'call with an argument of class {name} selects {got} instead of {" or ".join(sorted(want))}']
        return []

    def attributes(self):
        """dispatch(), registry etc., when everything can be resolved."""
        f = self.ns['f'] if self.kind == 'function' else self.ns['H'].__dict__['f'].dispatcher
        registry = self.early if self.kind == 'function' else f.registry       # a live view
        name = self.ns['f'].__name__
        if name != 'f':
            return [f'__name__ is {name}']
        for again in (False, True):
            for name in ARGS:
                cls = self.cls(name)
                want = self.allowed(cls)
                try:
                    got = f.dispatch(cls)
                    got = got.__name__ if got.__name__ in [e[0] for e in self.entries] else 'default'
                except RuntimeError:
                    got = 'RuntimeError'
                if got not in want:
                    return [f'dispatch({name}) returns {got} instead of {want}']
            f._clear_cache()
        want = {object: 'default'}
        for tag, classes, _ in self.entries:
            want.update((self.cls(c), tag) for c in classes)
        if {c: g.__name__ for c, g in registry.items() if want.get(c) != 'default'} != \
                {c: t for c, t in want.items() if t != 'default'} or object not in registry:
            return [f'registry is {dict(registry)} instead of {want}']
        return []

    def misuse(self):
        if self.kind == 'function':
            try:
                self.ns['f']()
                return ['call without arguments does not raise']
            except TypeError:
                pass
        return []


def run_history(kind, steps):
    """(number of steps, failures); None if a step is not enabled."""
    w = World(kind)
    for i, s in enumerate(steps):
        if not w.enabled(s):
            return None
        fails = w.perform(s)
        if fails:
            return [f'{kind}, history {[" ".join(s) for s in steps[:i + 1]]}: {fails[0]}']
    fails = w.perform(('calls', ''))
    if fails:
        return [f'{kind}, history {[" ".join(s) for s in steps]}: {fails[0]}']
    # when all classes have been defined the function must work
    for d in 'ABCD':
        if w.enabled(('def', d)):
            w.perform(('def', d))
    fails = w.perform(('calls', ''))
    if fails:
        return [f'{kind}, history {[" ".join(s) for s in steps]}, then definition of all classes: {fails[0]}']
    fails = w.attributes()
    if fails:
        return [f'{kind}, history {[" ".join(s) for s in steps]}, then use of the attributes: {fails[0]}']
    return []


def two_modules(kind, steps):
    """The same steps in two modules in turns: (module, step) pairs."""
    ws = World(kind), World(kind)
    for i, (m, s) in enumerate(steps):
        if not ws[m].enabled(s):
            return None
        fails = ws[m].perform(s)
        if fails:
            return [f'{kind}s in two modules, history {[f"{m} {a} {b}" for m, (a, b) in steps[:i + 1]]}: {fails[0]}']
    for m, w in enumerate(ws):
        for d in 'ABCD':
            if w.enabled(('def', d)):
                w.perform(('def', d))
        fails = w.perform(('calls', ''))
        if fails:
            return [f'{kind}s in two modules, history {[f"{m} {a} {b}" for m, (a, b) in steps]}, then calls in module '
                    f'{m}: {fails[0]}']
    return []


def trivial(steps):
    """No registration, or a call before the first one."""
    first = next((i for i, s in enumerate(steps) if s[0] in ('reg', 'direct')), None)
    return first is None or any(s[0] == 'calls' for s in steps[:first])


def run_case(case):
    kind, sort, prefix, depth, alphabet = case
    n, fails = 0, []
    steps = STEPS if alphabet == 'all' else GROUPS[alphabet]
    outs = []
    for d in range(0, depth + 1):
        for rest in itertools.product(steps, repeat=d):
            h = prefix + rest
            if sort == 'one':
                if trivial(h):
                    continue
                f = run_history(kind, h)
            else:
                f = None
                pairs = tuple((i % 2, s) for i, s in enumerate(h)) if sort == 'turns' else \
                    tuple((0, s) for s in h) + tuple((1, s) for s in h)
                f = two_modules(kind, pairs)
            if f is None:
                continue
            n += 1
            outs.append((kind, sort, h))
            fails += f
            if len(fails) > 2:
                return dict(fail=fails, n=n)
    return dict(fail=fails, n=n, outcomes=outs)


def main():
    run = common.Run('C21')
    common.prepare()
    cases = []
    deep = 4 if common.THOROUGH else 3
    for kind in ('function', 'method'):
        for s in STEPS:
            for t in STEPS:
                cases.append((kind, 'one', (s, t), 2 if common.THOROUGH else 1, 'all'))
            cases.append((kind, 'both', (s,), 1, 'all'))
        for g, steps in GROUPS.items():
            for s, t in itertools.product(steps, repeat=2):
                cases.append((kind, 'one', (s, t), deep, g))
                cases.append((kind, 'both', (s, t), deep - 1, g))
                cases.append((kind, 'turns', (s, t), deep - 1, g))
    common.execute(run, cases, run_case, chunk=2)
    run.states = run.transitions = run.traces
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(kind=c[0], sort=c[1], first_steps=c[2], alphabet=c[4], depth=len(c[2]) + c[3]))
    run.rule = ('histories of definitions of classes, registrations and calls: all of up to three (four) steps over an '
                'alphabet of 31 steps, all of up to five (six) over five alphabets of eight steps, functions and '
                'methods, in one module and in two modules, each followed by calls with all arguments before and '
                'after the remaining classes are defined')
    return run
