"""C20: the TypedDict replacement classifies keys correctly."""
import ast
import contextlib
import io
import itertools
import typing

import common

PRE = '''%s
import typing
import typing as t
from typing import *
from ts2python.typeddict_shim import TypedDict, GenericTypedDict, NotRequired, is_typeddict
from ts2python.json_validation import validate_type
T = TypeVar('T')
V = TypeVar('V')
Maybe = Optional[int]
'''
# spelling -> may the key be absent? (values of all types: 1 or None, 'a')
SPELLINGS = {
    'int': False, '"int"': False, 'None': True, '"None"': True, 'type(None)': True, 'Any': False, '"Any"': False,
    'Optional[int]': True, '"Optional[int]"': True, 'typing.Optional[int]': True, '"typing.Optional[int]"': True,
    't.Optional["int"]': True, '"t.Optional[int]"': True, 'Optional["Later"]': True, '"Optional[Later]"': True,
    'Optional[List[int]]': True, '"Optional[List[int]]"': True, "'Optional[\"Later\"]'": True, 'Maybe': True,
    'Union[int, None]': True, 'Union[None, int]': True, '"Union[int, None]"': True, '"Union[None, int]"': True,
    'Union[int, str, None]': True, '"Union[int, str, None]"': True, 'Union["Later", None]': True,
    'typing.Union[int, None]': True, '"typing.Union[None, int]"': True, 'Union[int, "None"]': True,
    'Union[int, type(None)]': True, 'Union[int, Optional[str]]': True, '"Union[int, Optional[str]]"': True,
    'Union[int, "Optional[str]"]': True, 'Union[int, "str | None"]': True, 'Union[List["Later"], None]': True,
    'int | None': True, 'None | int': True, '"int | None"': True, '"None | int"': True, '"int|None"': True,
    '"int | str | None"': True, '"int | None | str"': True, 'int | str | None': True,
    '"(int | None)"': True, '"List[int] | None"': True, '"Later | None"': True, '"list[int | None] | None"': True,
    'List["Later"] | None': True, '"Optional[int] | str"': True, '"int | Optional[str]"': True,
    'Optional[int] | str': True, '"Union[int, str] | None"': True, "'\"Later\" | None'": True,
    'NotRequired[int]': True, '"NotRequired[int]"': True, 'NotRequired["Later"]': True,
    'NotRequired[List[int]]': True, 'NotRequired[Optional[int]]': True, '"typing.NotRequired[int]"': True,
    'NotRequired[Union[int, str]]': True, 'NotRequired["int | str"]': True, '"NotRequired[Later]"': True,
    'List[Optional[int]]': False, '"List[Optional[int]]"': False, 'Dict[str, Optional[int]]': False,
    '"Dict[str, int | None]"': False, 'Dict[str, None]': False, '"Dict[str, None]"': False,
    'List[None]': False, '"List[None]"': False, '"list[int | None]"': False, 'Tuple[int, None]': False,
    '"Tuple[int, None]"': False, 'Callable[[int], None]': False, '"Callable[[int], None]"': False,
    'Union[int, str]': False, '"Union[int, str]"': False, 'Union[int, List[None]]': False,
    '"Union[int, List[None]]"': False, '"int | str"': False, 'int | str': False, '"int | List[None]"': False,
    'Literal["None"]': False, '"Literal[\'None\']"': False, '"Literal[\'int | None\']"': False,
    'Literal["Optional[int]"]': False, '"Literal[\'NotRequired[int]\']"': False, '"Later"': False,
    'T': False, 'Optional[T]': True, 'List[T]': False, '"T"': False, '"T | None"': True, 'List["Later"]': False,
    'Union["Later", int]': False, '"Later | int"': False, 'Type[None]': False, '"NoneLike"': False,
}
OBJECTS = ('Maybe', 'type(None)')      # names of types, not spellings
FEW = ('int', 'Optional[int]', '"int | None"', '"int"')
KEYS = ('x', 'y', 'z')
SYNTAX = ('class', 'class total', 'class not total', 'generic', 'generic base', 'dict', 'kwargs', 'future', 'body')


def class_text(name, bases, fields, syntax):
    """Source of a class; fields: ((name, spelling), ...)"""
    if syntax == 'dict':
        return f'{name} = TypedDict({name!r}, {{' + ', '.join(f'{k!r}: {s}' for k, s in fields) + '})\n'
    if syntax == 'kwargs':
        return f'{name} = TypedDict({name!r}' + ''.join(f', {k}={s}' for k, s in fields) + ')\n'
    bs = list(bases) or ['TypedDict']
    if syntax == 'generic':
        bs = (['Generic[T]'] + list(bases) if bases else ['Generic[T]', 'GenericTypedDict'])
    elif syntax == 'generic base' and not bases:
        bs = ['GenericTypedDict']
    opt = {'class total': ', total=True', 'class not total': ', total=False'}.get(syntax, '')
    body = ''.join(f'    {k}: {s}\n' for k, s in fields)
    if syntax == 'body':
        body = ('    """Docs."""\n    class Inner_0(TypedDict):\n        inner: Optional[int]\n        other: str\n' + body +
                '    def method(self, x: int) -> Optional[int]:\n        pass\n')
    return f'class {name}({", ".join(bs)}{opt}):\n' + (body or '    pass\n')


def reference(classes):
    """class -> {key: (spelling of the decisive declaration, its class)}."""
    res = {}
    for name, bases, fields, _ in classes:
        keys = {}
        for b in bases:
            keys.update(res[b])
        keys.update((k, (s, name)) for k, s in fields)
        res[name] = keys
    return res


def unquoted(s):
    """Text of an annotation in standard notation."""
    while isinstance(s, str):
        node = ast.parse(s.strip(), mode='eval').body
        if not (isinstance(node, ast.Constant) and isinstance(node.value, str)):
            return ast.unparse(node)
        s = node.value
    return s


def same_type(a, b):
    """Two annotations are the same or spellings of the same."""
    a, b = (unquoted(x.__forward_arg__ if isinstance(x, typing.ForwardRef) else x) for x in (a, b))
    return a == b or a in (None, type(None)) and b in (None, type(None)) or repr(a) == repr(b)


def examine(ns, classes):
    fails, n = [], 0
    expected = reference(classes)
    for name, bases, fields, syntax in classes:
        C = ns[name]
        n += 1
        keys = {k: s for k, (s, _) in expected[name].items()}
        opt = {k for k, s in keys.items() if SPELLINGS[s]}
        req = set(keys) - opt
        what = f'class {name} of {[(c[0], c[1], c[2], c[3]) for c in classes]}'
        got = C.__required_keys__, C.__optional_keys__, set(C.__annotations__)
        if got != (req, opt, set(keys)):
            fails.append(f'{what}: required {sorted(got[0])}, optional {sorted(got[1])}, annotated {sorted(got[2])} '
                         f'instead of required {sorted(req)}, optional {sorted(opt)}')
            break
        for k, (s, owner) in expected[name].items():
            if not same_type(C.__annotations__[k], ns[owner].__annotations__[k] if owner != name else
                             s if syntax == 'future' else eval(s, ns)):
                fails.append(f'{what}: key {k} of {name} has the type {C.__annotations__[k]} instead of {s}')
        if C.__name__ != name or C.__module__ != ns['__name__'] or not ns['is_typeddict'](C):
            fails.append(f'{what}: name {C.__name__}, module {C.__module__}, is_typeddict {ns["is_typeddict"](C)}')
        # instances are plain dictionaries
        data = {k: None for k in keys}
        for args, kw in (((), data), ((data,), {}), ((), {})):
            v = C(*args, **kw)
            if type(v) is not dict or v != (args[0] if args else kw):
                fails.append(f'{what}: {name}(*{args}, **{kw}) is {v!r} of type {type(v)}')
        try:
            isinstance(data, C)
            fails.append(f'{what}: instance check does not raise TypeError')
        except TypeError:
            pass
        # the validator requires exactly the required keys
        for r in range(len(keys) + 1):
            for present in itertools.combinations(sorted(keys), r):
                if all(keys[k].strip('"') in ('int', 'Optional[int]', 'int | None') for k in keys):
                    n += 1
                    try:
                        ns['validate_type']({k: 1 for k in present}, C)
                        ok = True
                    except TypeError:
                        ok = False
                    if ok != (req <= set(present)):
                        fails.append(f'{what}: data with the keys {present} is {"accepted" if ok else "rejected"}')
        if fails:
            break
    return n, fails


# things that are not admissible as type of a field
NO_TYPES = ('3', '3.5', '(int, str)', '[int]', '{"a": int}', 'b"int"', 'Generic', 'ClassVar[int]', 'Final[int]', 'True')
BASES = {'Plain': 0, 'int': 0, 'str': 0, 'Meta': 0, 'Enum': 0, 'TypedDict': 1, 'A': 1, 'B': 1, 'Generic[T]': 1}


def error_cases():
    """(statement, is it admissible?)"""
    for fields, keywords, pos in itertools.product(('', 'None', '{}', '{"x": int}', '{"x": Optional[int], "y": str}'),
                                                   ('', 'x=int', 'y=Optional[int], z=str'), (1, 0)):
        if fields or pos:
            args = ', '.join(a for a in ('"X"', fields if pos or not fields else 'fields=' + fields, keywords) if a)
            yield f'X = TypedDict({args})', not (keywords and fields not in ('', 'None'))
    for n in (1, 2, 3):
        for bases in itertools.permutations(BASES, n):
            if {'TypedDict', 'A', 'B'} & set(bases) and not ('A' in bases and 'B' in bases and bases.index('A') < bases.index('B')):
                ok = all(BASES[b] for b in bases)
                yield f'class X({", ".join(bases)}):\n    x: int\n', ok
    for t in NO_TYPES:
        yield f'class X(TypedDict):\n    x: {t}\n', False
        yield f'class X(A):\n    y: int\n    z: {t}\n', False
        yield f'X = TypedDict("X", dict(a=int, x={t}))', False
        yield f'X = TypedDict("X", a=int, x={t})', False
    for t in SPELLINGS:
        if '|' not in t or '"' not in t:
            yield f'X = TypedDict("X", a=int, x={t})', True
    for c in ('TypedDict', 'A', 'B', 'F', 'G', 'G[int]'):
        for v in ('{}', '{"a": 1}', '3', 'A'):
            if c != 'TypedDict':
                yield f'isinstance({v}, {c})', False
        for v in ('dict', 'A', 'int'):
            if c != 'TypedDict':
                yield f'issubclass({v}, {c})', False


ERROR_PRE = PRE % '' + '''from enum import Enum
from collections import OrderedDict
class Plain: pass
class MetaMeta(type(TypedDict('M', {}))): pass
class Meta: pass
class A(TypedDict):
    a: int
class B(A):
    b: Optional[int]
F = TypedDict('F', {'a': int})
class G(Generic[T], GenericTypedDict):
    g: T
'''


def run_error(case):
    text, ok = case
    ns = common.load_module(ERROR_PRE)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            exec(text, ns.__dict__)
        err = ''
    except TypeError as e:
        err = str(e) or 'TypeError'
    except Exception as e:
        return dict(fail=[f'{text}: {common.describe_exc(e)}'])
    finally:
        common.unload(ns)
    if ok == bool(err):
        return dict(fail=[f'{text}: ' + (f'is rejected: {err}' if err else 'is not rejected')])
    return dict(outcomes=[text])


def run_case(case):
    """A list of hierarchies, each a tuple of (name, bases, fields, syntax)."""
    if isinstance(case[0], str):
        return run_error(case)
    total, outs, fails = 0, [], []
    for group, future in itertools.groupby(case, key=lambda h: h[0][3] == 'future'):
        hs = list(future)
        for h in hs:
            text = PRE % ('from __future__ import annotations' if group else '') + \
                ''.join(class_text(*c) for c in h)
            try:
                mod = common.load_module(text)
            except Exception as e:
                if isinstance(e, TypeError) and 'unsupported operand' in str(e):
                    continue        # this spelling cannot be evaluated by Python itself
                fails.append(f'{[(c[1], c[2], c[3]) for c in h]}: cannot be created: {common.describe_exc(e)}')
                continue
            n, f = examine(mod.__dict__, h)
            common.unload(mod)
            total += n
            outs.append(h)
            fails += f
        if fails:
            break
    return dict(fail=fails[:2], n=total, outcomes=outs)


def unite(classes, syntax):
    return tuple((n, b, f, s if s not in ('dict', 'kwargs') or not b else 'class') for (n, b, f), s in
                 zip(classes, syntax))


def main():
    run = common.Run('C20')
    common.prepare()
    hs = []
    names = 'ABCD'
    # all spellings in all syntaxes, alone and together with other keys
    for i, s in enumerate(SPELLINGS):
        for syn in SYNTAX:
            hs.append((('A', (), (('x', s),), syn),))
            hs.append((('A', (), (('w', 'int'), ('x', s), ('y', FEW[i % 4])), syn),))
            hs.append((('A', (), (('x', s),), syn), ('B', ('A',), (('y', FEW[i % 4]),), 'class' if syn != 'future'
                                                     else syn)))
    hs = [h for h in hs if h[0][3] != 'future' or not any(x in s for x in OBJECTS for _, s in h[0][2])]
    # redeclarations in all pairs of spellings
    pairs = itertools.product(SPELLINGS, repeat=2)
    for i, (s, u) in enumerate(pairs):
        syn = SYNTAX[(i + i // len(SPELLINGS)) % len(SYNTAX)]
        if syn == 'future' and any(x in s + u for x in OBJECTS):
            syn = 'class'
        syn2 = 'class' if syn in ('dict', 'kwargs') else syn if syn != 'generic' else 'class'
        hs.append((('A', (), (('x', s), ('y', u)), syn), ('B', ('A',), (('x', u),), syn2)))
    # hierarchies of up to three (four) classes
    few = FEW[:3]
    options = [()] + [(('x', s),) for s in few] + [(('y', s),) for s in few[:2]] + \
        [(('x', s), ('y', u)) for s in few[:2] for u in few[:2]]
    graphs3 = [((), a, b) for a in ((), ('A',)) for b in ((), ('A',), ('B',), ('A', 'B'), ('B', 'A'))]
    i = 0
    for g in graphs3:
        for fs in itertools.product(options, repeat=3):
            i += 1
            bases = [('B', 'A') if b == ('B', 'A') else b for b in g]
            syn = [SYNTAX[(i + j * 2) % 7] for j in range(3)]
            if any('generic' in s for s in syn):
                syn = [s if s != 'generic' else 'class' for s in syn]
            hs.append(unite([(names[k], bases[k], fs[k]) for k in range(3)], syn))
    graphs4 = [((), ('A',), ('A',), b) for b in (('B', 'C'), ('C', 'B'), ('B',), ('A', 'B'), ('B', 'A', 'C'))] + \
        [((), (), (), b) for b in itertools.permutations('ABC')] + [((), ('A',), ('B',), ('C',)),
                                                                    ((), (), ('A', 'B'), ('C',)),
                                                                    ((), (), ('B', 'A'), ('C', 'A'))]
    opts4 = options[:6] if not common.THOROUGH else options
    for g in graphs4:
        for fs in itertools.product(opts4, repeat=4):
            i += 1
            hs.append(unite([(names[k], tuple(g[k]), fs[k]) for k in range(4)],
                            [('class', 'class total', 'class not total')[(i + k) % 3] for k in range(4)]))
    run.states = len(hs)
    size = 40
    cases = [tuple(hs[k:k + size]) for k in range(0, len(hs), size)]
    errors = list(error_cases())
    run.states += len(errors)
    cases += errors
    run.extra['admissible_and_inadmissible_definitions'] = len(errors)
    common.execute(run, cases, run_case)
    run.transitions = run.traces
    run.extra['spellings_of_types'] = len(SPELLINGS)
    for c in (hs[0], hs[len(hs) // 2], hs[-1]):
        run.sample(dict(classes=''.join(class_text(*x) for x in c)))
    run.rule = ('states: class hierarchies - all spellings of field types in all syntaxes, redeclarations in all pairs '
                'of spellings, all inheritance graphs of up to three and a selection of those of four classes; '
                'transitions: classes inspected and dictionaries validated')
    return run
