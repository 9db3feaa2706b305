"""C18: validation has no memory and no side effects."""
import collections
import copy
import re
import typing

import common
from checks import c11

TS_A = '''enum E { a = 1, b = 2 }
interface P { x: E; l?: P[]; u?: P | string; t?: [P, E]; m?: {[key: string]: E}; n: P | null }
interface Q extends P { y: "k" | 1; z?: { w: E } }
type L = P[];
type U = P | E | string;
function f(a: P, b?: E): P;
'''
TS_B = '''enum E { a = "1", b = "s" }
interface P { x: E; l?: P[]; u?: P | number; t?: [P, E]; m?: {[key: string]: E}; n: P | null; o: boolean }
interface Q extends P { y: "k" | 2; z?: { w: E } }
type L = P[];
type U = P | E | number;
function f(a: P, b?: E): P;
'''
CFGS = ((dict(), dict()),
        (dict(), dict(UseTypeUnion=True, UseLiteralType=True)),
        (dict(UseNotRequired=True, UseVariadicGenerics=True), dict(UseNotRequired=True, UseVariadicGenerics=True)),
        (dict(BaseClassName='TypedDict', UseLiteralType=True), dict(UseNotRequired=True, UseLiteralType=True)))
HAND = '''
from typing import *
from enum import Enum
from ts2python.typeddict_shim import TypedDict
from ts2python.json_validation import type_check
%s
class P(TypedDict):
    x: 'E'
    l: Optional[List['P']]
    t: Optional[Tuple['E', 'P']]
    n: Union['P', None]
class R(TypedDict):
    p: 'P'
    l: List['P']
    d: Dict[str, 'E']
@type_check
def g(p: Optional['P'], *l: List['P']) -> Union['P', 'E']:
    return p
'''


def a_value():
    return {'x': 1, 'n': {'x': 2, 'n': None}}


def b_value():
    return {'x': '1', 'o': True, 'n': {'x': 's', 'o': False, 'n': None}}


def nested(p, e):
    return dict(p, l=[p, p], u=p, t=[p, e], m={'k': e})


def module_pair(k):
    if k < len(CFGS):
        mods = [common.load_module(common.transpile(src, cfg)[0], f'mod_{k}_{n}')
                for n, src, cfg in zip('ab', (TS_A, TS_B), CFGS[k])]
        for m in mods:
            # functions of the modules that return what they are given
            exec('from ts2python.json_validation import type_check\n'
                 '@type_check\ndef call(a: P, *r: E, k: "L" = []) -> P:\n    return a\n', m.__dict__)
        return mods
    mods = [common.load_module(HAND % e, f'mod_{k}_{n}') for n, e in (
        ('a', 'class E(Enum):\n    a = 1\n    b = 2'),
        ('b', 'class E(Enum):\n    a = "1"\n    b = "s"'))]
    return mods


class Twin:
    """A value that is valid and invalid in turns (the same object, modified)."""

    def __init__(self, good, spoil, repair):
        self.value, self.spoil, self.repair, self.bad = good, spoil, repair, False


SHAPES = '''interface S { x: number; o?: string }
interface W { s: S; l?: S[]; u?: S | string }
interface V extends S { y: boolean }
interface N { r: {x: number; o?: string}; o?: string }
'''


def shape_steps():
    """Values that are complete or lack keys, have keys too many or of the wrong type - in all combinations."""
    from ts2python import json_validation as jv
    m = common.load_module(common.transpile(SHAPES, dict(UseTypeUnion=True))[0], 'mod_shapes')
    steps = []
    for base in ('full', 'missing', 'wrong'):
        for more in (False, True):
            def shape(base=base, more=more, **keys):
                v = {} if base == 'missing' else {'x': 1 if base == 'full' else 'w'}
                return dict(v, **(dict(q=1) if more else {}), **keys)
            vals = [('S', shape(), m.S), ('V', shape(y=True), m.V), ('W.s', {'s': shape()}, m.W),
                    ('W.l', {'s': {'x': 1}, 'l': [shape()]}, m.W)]
            if more or base == 'full':
                vals += [('N.r', {'r': shape()}, m.N), ('W.u', {'s': {'x': 1}, 'u': shape()}, m.W)]
            for name, v, t in vals:
                steps.append((f'shape {name}: {base}{", keys too many" if more else ""}',
                              lambda v=v, t=t: jv.validate_type(v, t, t), t, v))
    return steps, (m,)


def steps_of(k):
    """The alphabet of validations: (label, function -> validation, type, value)."""
    from ts2python import json_validation as jv
    if k > len(CFGS):
        return shape_steps()
    A, B = module_pair(k)
    steps = []

    def add(label, typ, val, how=None, context=None):
        if how is None:
            def how():
                jv.validate_type(val, typ, context)
        steps.append((label, how, typ, val))

    vals = {'a': a_value(), 'b': b_value()}
    if k == len(CFGS):
        for v in (vals['b'], vals['b']['n']):
            del v['o']
    shared = {'x': 1, 'o': True, 'n': None}
    for name, m in (('A', A), ('B', B)):
        for v in 'ab':
            add(f'{name}.P of {v}', m.P, vals[v])
            if k < len(CFGS):
                add(f'{name}.P of nested {v}', m.P, nested(vals[v], vals[v]['x']))
                add(f'{name}.L of {v}', m.L, [vals[v]], context=m.P)
            else:
                p, e = vals[v], vals[v]['x']
                add(f'{name}.P of nested {v}', m.P, dict(p, l=[p, p], t=[e, p]))
                add(f'{name}.R of {v}', m.R, {'p': p, 'l': [p], 'd': {'k': e}})
                add(f'uniform {name} {v}', typing.List['P'], [p],
                    how=lambda p=p, m=m: jv.validate_uniform_sequence([p], 'P', m.P))
                add(f'{name}.g of {v}', m.P, p, how=lambda p=p, m=m: m.g(p, [p]))
                add(f'{name}.g of nested {v}', m.P, p, how=lambda p=p, m=m, v=v: m.g(vals[m.__name__[-1]], [p]))
                add(f'{name} List of {v}', typing.List['P'], [p], context=m.P)
        add(f'{name}.E of 1', m.E, 1)
        add(f'{name}.E of "1"', m.E, '1')
        add(f'{name}.P of shared', m.P, shared)
    for name, m in (('A', A), ('B', B)):
        if k < len(CFGS):
            v, w = vals[name.lower()], vals['b' if name == 'A' else 'a']
            q = dict(v, y='k', z={'w': v['x']})
            add(f'{name}.Q', m.Q, q)
            add(f'{name}.Q, wrong inside', m.Q, dict(q, z={'w': w['x']}, l=[v]))
            add(f'{name}.U of a string', m.U, 'zzz', context=m.P)
            add(f'{name}.call', m.P, [v, w], how=lambda m=m, v=v: m.call(v, v['x']))
            add(f'{name}.call wrong', m.P, [v, w], how=lambda m=m, v=v, w=w: m.call(v, v['x'], w['x'], k=[v]))
            d = collections.defaultdict(dict, x=v['x'])
            add(f'{name}.P of a defaultdict', m.P, d)
    twin = Twin({'x': 1, 'n': None, 'l': []}, lambda v: v['l'].append(3), lambda v: v['l'].clear())
    steps.append(('twin', twin, A.P, twin.value))
    for typ, vs in ((int, (1, True, 1.0)), (float, (1, True, 1.0)), (bool, (1, True)),
                    (typing.List[float], ([1], [True])), (typing.Literal[1], (1, 1.0)),
                    (typing.Union[int, str], (1, 1.0)), (None, (None, 0))):
        for v in vs:
            if k == 0 or k == len(CFGS):
                add(f'{typ} of {v!r}', typ, v)
    return steps, (A, B)


_alphabet = {}


def perform(steps, i):
    """Outcome of the step, and what it modified."""
    label, how, typ, val = steps[i]
    before = copy.deepcopy(val)
    ids = identities(val)
    if isinstance(how, Twin):
        from ts2python.json_validation import validate_type
        twin = how
        (twin.repair if twin.bad else twin.spoil)(twin.value)
        twin.bad = not twin.bad
        ids, before = identities(val), copy.deepcopy(val)

        def how():
            validate_type(twin.value, typ)
        label = f'{label}, {"invalid" if twin.bad else "valid"} now'
    try:
        how()
        res = 'accepted'
    except Exception as e:
        res = type(e).__name__
    if val != before or type(val) is not type(before) or identities(val) != ids:
        res += f', but the value was modified: {before!r} -> {val!r}'
    return label, res


def identities(v):
    """Identity and type of all parts of a value."""
    if isinstance(v, dict):
        return (id(v), type(v), tuple((k, identities(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (id(v), type(v), tuple(identities(x) for x in v))
    return (id(v), type(v))


def show(t, depth=6):
    """What an annotation says - whether or not names have been resolved."""
    if isinstance(t, (str, typing.ForwardRef)):
        return 'ref:' + (t if isinstance(t, str) else t.__forward_arg__)
    args = getattr(t, '__args__', None)
    if args and depth:
        return f'{getattr(t, "__origin__", type(t))}[{", ".join(str(show(a, depth - 1)) for a in args)}]'
    return repr(t)


def annotations(mods):
    """What the annotations of all types of the modules evaluate to, and the keys."""
    res = {}
    for m in mods:
        for n, t in vars(m).items():
            if isinstance(t, type) and getattr(t, '__module__', '') == m.__name__:
                if hasattr(t, '__required_keys__'):
                    res[m.__name__, n] = (repr(sorted(t.__required_keys__)), repr(sorted(t.__optional_keys__)),
                                          {k: show(v) for k, v in typing.get_type_hints(t).items()},
                                          list(t.__annotations__))
                elif hasattr(t, '__members__'):
                    res[m.__name__, n] = [(k, v.value) for k, v in t.__members__.items()]
    return res


def check(case):
    """All continuations of a history of two steps by a third one."""
    k, i, j = case
    if k not in _alphabet:
        _alphabet[k] = steps_of(k)
    steps, mods = _alphabet[k]
    fresh = _fresh[k]
    n, fails, outs = 0, [], set()

    def history():
        res = []
        first = [perform(steps, x) for x in (i, j)]

        def last(x):
            return first + [perform(steps, x)], annotations(mods) if x == i else None
        for x in range(len(steps)):
            res.append(c11.in_child(lambda: last(x)))
        return res
    for x, (got, ann) in zip(range(len(steps)), c11.in_child(history)):
        n += 1
        for pos, (label, res) in enumerate(got):
            want = fresh.get(label)
            if res != want:
                fails.append(f'{[l for l, _ in got[:pos]]} followed by the validation of {label}: {res} instead of '
                             f'{want}')
        outs.add((k, got[-1], i, j))
        if ann is not None and ann != _annotations[k]:
            diff = [t for t in ann if ann[t] != _annotations[k].get(t)]
            fails.append(f'the types {diff} are different after {[l for l, _ in got]}: '
                         f'{ann[diff[0]] if diff else ""} instead of {_annotations[k][diff[0]] if diff else ""}')
        if fails:
            break
    return dict(fail=fails[:3], n=n, outcomes=list(outs))


_fresh, _annotations = {}, {}


def setup():
    """Outcomes of all steps in the initial state."""
    for k in range(len(CFGS) + 2):
        _alphabet[k] = steps_of(k)
        steps, mods = _alphabet[k]
        _fresh[k] = {}
        _annotations[k] = c11.in_child(lambda: annotations(mods))
        for i in range(len(steps)):
            label, res = c11.in_child(lambda: perform(steps, i))
            _fresh[k][label] = res
            if label.startswith('twin'):
                def twice():
                    perform(steps, i)
                    perform(steps, i)
                # the twin is valid in the initial state
                from ts2python.json_validation import validate_type
                def valid():
                    try:
                        validate_type(steps[i][3], steps[i][2])
                        return 'accepted'
                    except Exception as e:
                        return type(e).__name__
                _fresh[k]['twin, valid now'] = c11.in_child(valid)


def run_case(case):
    return check(case)


def alone(k):
    """The types of a module accept the values of this module and reject those of the other one."""
    res = []
    for label, got in _fresh[k].items():
        m = re.match(r'(A|B)\.(?:P|L|R|g) of (?:nested )?(a|b)$', label)
        s = re.match(r'shape .*: (full|missing|wrong)(, keys too many)?$', label)
        if s and (got == 'accepted') != (s.group(1) == 'full' and not s.group(2)):
            res.append(f'{label}: {got}')
        if m and (got == 'accepted') != (m.group(1).lower() == m.group(2)):
            res.append(f'{label}: {got}')
    return res


def main():
    run = common.Run('C18')
    common.prepare()
    setup()
    cases = []
    for k in _alphabet:
        n = len(_alphabet[k][0])
        run.states += n + n * n
        for f in alone(k):
            run.fail(k, f)
        cases += [(k, i, j) for i in range(n) for j in range(n)]
    run.extra['validations_in_the_alphabets'] = {k: len(v[0]) for k, v in _alphabet.items()}
    run.extra['outcomes_of_single_validations'] = {k: dict(collections.Counter(v.values())) for k, v in _fresh.items()}
    if not common.THOROUGH:
        run.exhaustive = False
        cases = [c for i, c in enumerate(cases) if (i + common.SEED) % (2 if c[0] in (0, len(CFGS)) else 4) == 0]
    common.execute(run, cases, run_case, chunk=4)
    run.transitions = run.traces
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(modules=c[0], first=_alphabet[c[0]][0][c[1]][0], second=_alphabet[c[0]][0][c[2]][0]))
    run.rule = ('states: histories of up to two validations, by types of two modules that share names and typing '
                'constructs, reached in a fresh process each; transitions: every third validation from each of them; '
                'all outcomes are compared with the outcomes in the initial state')
    return run
