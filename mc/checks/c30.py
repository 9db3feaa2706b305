"""C30: the message of a rejection names what is wrong and nothing else."""
import ast
import itertools
import re

import common

HEADER = {'shim': 'from ts2python.typeddict_shim import TypedDict, NotRequired\n',
          'typing': 'from typing import TypedDict, NotRequired\n'}
MODULE = '''%s
from typing import *
from enum import Enum
from ts2python.json_validation import type_check
class E(Enum):
    a = 1
    b = 'x'
class Sub(TypedDict):
    p: int
    q: NotRequired[str]
class Mid(TypedDict):
    s: Sub
    n: NotRequired[int]
'''
ANY = object()
# kind -> (annotation, conforming values, non-conforming values); faults in kinds of the first
# group are collected, a fault in the others is reported on its own
FLAT = {
    'int': ('int', (0, 7), ('a long text, really', None)),
    'str': ('str', ('', 'w'), (0, ['x'])),
    'float': ('float', (1.5, 2), ('1.5',)),
    'bool': ('bool', (False,), ('no', 0)),
    'union': ('Union[int, str]', (0, 'u'), ([1], None)),
    'opt': ('Optional[str]', (None, ''), (5,)),
    'unite': ("Union['Sub', List[int]]", ({'p': 1}, []), ({'p': 'w'}, ['t'], 0)),
}
DICT = {'sub': ('Sub', ({'p': 1}, {'p': 0, 'q': ''}), ({}, {'p': 1, 'r': 1}, {'p': 'w', 'q': 1, 'z': 0})),
        'mid': ('Mid', ({'s': {'p': 1}},), ({'s': {}}, {'s': 0, 'n': ''}, {'t': 1}))}
NODICT = (3, 'no dictionary at all', None)
DEEP = {
    'list': ('List[int]', ([], [1]), (['u'], [1, None], 'no list')),
    'dict': ('Dict[str, int]', ({}, {'k': 1}), ({'k': 'v'}, [])),
    'tuple': ('Tuple[int, str]', ([1, 's'], (1, 's')), ([1], ['s', 's'], {})),
    'lit': ('Literal["k", 2]', ('k', 2), ('m', 3)),
    'enum': ('E', (1, 'x'), (5, 'y', None)),
    'subs': ("List['Sub']", ([], [{'p': 1}]), ([{}], [{'p': 1}, {'p': 's', 'r': 1}], [3])),
    'none': ('None', (None,), (0,)),
}
KINDS = {**FLAT, **DICT, **DEEP}
PLACES = ('dict', 'inherited', 'item', 'value', 'argument', 'second', 'keyword', 'star', 'result')


def source(fields, flavour):
    """Module with the type T; fields: (kind, required)."""
    lines = [MODULE % HEADER[flavour]]
    for cls, part in (('Base', fields[:1]), ('Derived(Base)', fields[1:])):
        lines.append(f'class {cls.replace("(Base)", "(Base)") if "(" in cls else cls + "(TypedDict)"}:')
        lines += [f'    f{i + (1 if "(" in cls else 0)}: {ann(k, r)}' for i, (k, r) in enumerate(part)] or ['    pass']
    lines.append('class T(TypedDict):')
    lines += [f'    f{i}: {ann(k, r)}' for i, (k, r) in enumerate(fields)]
    lines.append('''
@type_check
def arg(a: T, b: int = 0):
    return a
@type_check
def second(a: int, b: T) -> int:
    return 1
@type_check
def key(a: str, *, b: T, c: int = 3):
    return b
@type_check
def star(a: int, *b: T):
    return a
@type_check
def res(a) -> T:
    return a
''')
    return '\n'.join(lines)


def ann(kind, required):
    t = KINDS[kind][0]
    return t if required else f'NotRequired[{t}]'


def values_of(fields, limit):
    """(dictionary, missing keys, superfluous keys, faulty fields, deep faults)."""
    options = []
    for i, (k, required) in enumerate(fields):
        good, bad = KINDS[k][1], KINDS[k][2]
        o = [(ANY, 'missing' if required else '')]
        o += [(v, '') for v in good[:limit]] + [(v, 'flat' if k in FLAT else 'deep') for v in bad]
        if k in DICT:
            o += [(v, 'flat') for v in NODICT[:limit + 1]]
        options.append(o)
    for combi in itertools.product(*options):
        for more in ((), ('x',), ('x', 'F0')):
            D = {f'f{i}': v for i, (v, _) in enumerate(combi) if v is not ANY}
            D.update({m: m for m in more})
            by = {t: {f'f{i}' for i, (_, x) in enumerate(combi) if x == t} for t in ('missing', 'flat', 'deep')}
            yield D, by['missing'], set(more), by['flat'], by['deep']


RX_SET = {w: re.compile(w + r' ?(?:required )?keys: (\{.*\})$') for w in ('Missing', 'Unexpected')}


def read(message):
    """Parts of the report on a dictionary: (type, missing, unexpected, {field: line}), or None."""
    lines = message.split('\n')
    m = re.match(r"Type error\(s\) in dictionary of type <class '(?:[\w.]*\.)?(\w+)'>:$", lines[0])
    if not m:
        return None
    sets, fields, rest = {'Missing': set(), 'Unexpected': set()}, {}, []
    for l in lines[1:]:
        for w, rx in RX_SET.items():
            k = rx.match(l)
            if k:
                sets[w] = ast.literal_eval(k.group(1))
                break
        else:
            k = re.match(r'Field (\w+): ', l)
            if k and k.group(1) not in fields:
                fields[k.group(1)] = l
            else:
                rest.append(l)
    return m.group(1), sets['Missing'], sets['Unexpected'], fields, rest


def inner(v):
    """All dictionaries within a value."""
    if isinstance(v, dict):
        yield v
    if isinstance(v, (dict, list, tuple)):
        for x in (v.values() if isinstance(v, dict) else v):
            yield from inner(x)


def parts(v):
    yield v
    if isinstance(v, (dict, list, tuple)):
        for x in (v.values() if isinstance(v, dict) else v):
            yield from parts(x)
        if isinstance(v, dict):
            yield from v
        if isinstance(v, list):
            yield tuple(v)


def faults_of(name, d):
    """Faults of a dictionary of the type Sub or Mid: (missing, unexpected, ill-typed fields)."""
    if name == 'Sub':
        ok = dict(p=lambda v: isinstance(v, int), q=lambda v: isinstance(v, str))
        req = {'p'}
    else:
        ok = dict(s=lambda v: isinstance(v, dict), n=lambda v: isinstance(v, int))
        req = {'s'}
    return req - d.keys(), d.keys() - ok.keys(), {k for k in d.keys() & ok.keys() if not ok[k](d[k])}


def judge(D, faults, text, etype, names):
    """Complaints about the message of the rejection of D by one of the types ``names``."""
    missing, more, flat, deep = faults
    rep = read(text)
    if rep is not None:
        name, m, u, fields, rest = rep
        if rest:
            return f'superfluous lines {rest}'
        if name in names:
            if deep:
                # what lies deeper is found while the fields are inspected
                return f'does not mention the faults of {sorted(deep)}'
            if (m, u, set(fields)) != (missing, more, flat):
                return f'names {m, u, set(fields)} instead of {missing, more, flat}'
            for f, l in fields.items():
                if str(D[f])[:10] not in l or type(D[f]).__name__ not in l:
                    return f'does not describe the value of {f}: {l!r}'
            return ''
        if name not in ('Sub', 'Mid'):
            return f'names the type {name}'
        for f in deep:
            if any((m, u, set(fields)) == faults_of(name, d) for d in inner(D[f])):
                return ''
        return 'names faults that no inner dictionary has'
    if not deep:
        return 'does not name the type of the dictionary'
    k = re.match(r'(.*) is (?:not of type|not even a|not contained in) (.*)$', text, re.S)
    if not k:
        return 'does not say what is wrong'
    if not any(str(p) == k.group(1) for f in deep for p in parts(D[f])):
        return f'{k.group(1)!r} is no value of the fields {sorted(deep)}'
    return ''


def dict_case(case):
    fields, place, flavour = case
    from ts2python.json_validation import validate_type, validate_uniform_sequence
    text = source(fields, flavour)
    mod = common.load_module(text)
    fails, outcomes, n = [], set(), 0
    name = 'Derived' if place == 'inherited' else 'T'
    for D, *faults in values_of(fields, 2 if common.THOROUGH else 1):
        n += 1
        good = {f'f{i}': KINDS[k][1][0] for i, (k, r) in enumerate(fields)}
        call = {'dict': lambda: validate_type(D, mod.T),
                'inherited': lambda: validate_type(D, mod.Derived),
                'item': lambda: validate_uniform_sequence([good, D, good], mod.T),
                'value': lambda: validate_type({'a': good, 'b': D}, mod.Dict[str, mod.T]),
                'argument': lambda: mod.arg(D),
                'second': lambda: mod.second(1, D),
                'keyword': lambda: mod.key('', b=D),
                'star': lambda: mod.star(1, good, D),
                'result': lambda: mod.res(D)}[place]
        wrong = any(faults)
        try:
            call()
            got = None
        except (TypeError, ValueError) as e:
            got = e
        except Exception as e:
            fails.append(f'{D}: {common.describe_exc(e)}')
            break
        if (got is not None) != wrong:
            outcomes.add('decision')        # judged by C17
            continue
        if got is None:
            outcomes.add('accepted')
            continue
        msg = str(got)
        outcomes.add(re.sub(r"<class '[\w.]*\.", "<class '", msg))
        if isinstance(got, ValueError):
            # prescribed for enumerations only
            if not any(fields[int(f[1:])][0] == 'enum' for f in faults[3]):
                fails.append(f'{D}: raises {type(got).__name__}: {msg}')
            msg2 = msg
        elif place in ('argument', 'second', 'keyword', 'star'):
            p, f = {'argument': ('a', 'arg'), 'second': ('b', 'second'), 'keyword': ('b', 'key'), 'star': ('b', 'star')}[place]
            head, _, msg2 = msg.partition('\n')
            if f'"{p}"' not in head or f'"{f}"' not in head:
                fails.append(f'{D}: parameter {p} of {f} is not named: {msg!r}')
        elif place == 'result':
            head, _, msg2 = msg.partition('because:')
            msg2 = msg2.strip()
            if '"res"' not in head or 'returned' not in head:
                fails.append(f'{D}: the function is not named: {msg!r}')
        else:
            msg2 = msg
        bad = judge(D, faults, msg2, type(got), (name,))
        if bad:
            fails.append(f'message about {D}: {bad}; it reads: {msg!r}')
        if len(fails) > 2:
            break
    common.unload(mod)
    return dict(fail=fails, n=n, outcomes=list(outcomes), shown=text if fails else '')


def calls_case(case):
    """Functions with up to four parameters, any of which are given wrong arguments."""
    from ts2python.json_validation import validate_type  # noqa: F401
    kinds, wrong, how = case
    params, args, kwargs = [], [], {}
    for i, (k, w) in enumerate(zip(kinds, wrong)):
        v = (KINDS[k][2] if w else KINDS[k][1])[0]
        params.append((f'p{i}', KINDS[k][0]))
        if how == 'keywords' or how == 'mixed' and i >= 1 or how == 'reversed':
            kwargs[f'p{i}'] = v
        else:
            args.append(v)
    if how == 'reversed':
        kwargs = dict(reversed(kwargs.items()))
    text = MODULE % HEADER['shim'] + '@type_check\ndef fun(%s) -> int:\n    return "w"\n' % ', '.join(
        f'{p}: {t}' for p, t in params)
    mod = common.load_module(text)
    try:
        mod.fun(*args, **kwargs)
        got = ''
    except TypeError as e:
        got = str(e)
    except Exception as e:
        got = common.describe_exc(e)
    common.unload(mod)
    bad = {f'p{i}' for i, w in enumerate(wrong) if w}
    named = set(re.findall(r'Parameter "(\w+)"', got))
    what = f'call of fun({params}) with {args} {kwargs}'
    fails = []
    if '"fun"' not in got:
        fails.append(f'{what}: the function is not named: {got!r}')
    elif bad and not (named and named <= bad):
        fails.append(f'{what}: names {named} instead of {bad}: {got!r}')
    elif not bad and (named or 'returned' not in got):
        fails.append(f'{what}: the returned value is not named: {got!r}')
    return dict(fail=fails, n=1, outcomes=[got], shown=text if fails else '')


def run_case(case):
    return (calls_case if case[0] == 'call' else dict_case)(case[1])


def main():
    run = common.Run('C30')
    common.prepare()
    kinds = [(k, r) for k in KINDS for r in (True, False)]
    cases = []
    for n in (1, 2, 3):
        for i, fields in enumerate(itertools.product(kinds, repeat=n)):
            if n == 3 and not common.THOROUGH and (i + common.SEED) % 23:
                continue
            if n == 3 and common.THOROUGH and (i + common.SEED) % 3:
                continue
            for j, place in enumerate(PLACES):
                if n == 1 or (i + j) % (9 if n == 3 else 3) == 0:
                    cases.append(('dict', (fields, place, ('shim', 'typing')[(i // 9 + j) % 2])))
    for n in (1, 2, 3, 4):
        simple = ('int', 'str', 'union', 'sub', 'list', 'lit')[:6 if n < 4 else 3]
        for ks in itertools.product(simple, repeat=n):
            for wrong in itertools.product((False, True), repeat=n):
                for how in ('positional', 'keywords', 'mixed', 'reversed'):
                    if common.THOROUGH or n < 3 or (len(cases) + common.SEED) % 4 == 0 or how == 'reversed' and n == 3:
                        cases.append(('call', (ks, wrong, how)))
    run.states = len(cases)
    run.exhaustive = False
    common.execute(run, cases, run_case)
    run.extra["decisions_left_to_C17"] = int("decision" in run.nontrivial)
    run.transitions = run.traces
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(kind=c[0], case=c[1]))
    run.rule = ('states: TypedDict types of up to three fields in nine places, functions of up to four parameters; '
                'traces: validations of all dictionaries whose fields are absent, conforming or not, with and without '
                'superfluous keys')
    return run
