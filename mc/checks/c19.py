"""C19: a type-checked function raises exactly for ill-typed calls."""
import itertools
import typing

import common

PRE = '''
from typing import *
from enum import Enum
from ts2python.typeddict_shim import TypedDict
from ts2python.json_validation import type_check
class E(Enum):
    a = 1
    b = 's'
class P(TypedDict):
    x: int
    y: Optional[List['P']]
class Fault(Exception):
    pass
'''
# annotation -> (conforming values, other values)
VALUES = {
    '': ((7, None), ()),
    'int': ((0, 7), ('7', None, 1.5)),
    'float': ((1, 1.5), (True, '1')),
    'str': (('', 'a'), (1, None)),
    'P': (({'x': 1}, {'x': 1, 'y': [{'x': 2}]}), ({}, {'x': 1, 'y': [{}]}, None)),
    '"P"': (({'x': 1},), ({'x': 1, 'z': 2}, [])),
    'E': ((1, 's'), (2, None)),
    'List[int]': (([], [1]), ([1, 'a'], (), None)),
    'List["P"]': (([{'x': 1}],), ([{}], {'x': 1})),
    'Optional[int]': ((None, 1), ('1', [])),
    '"int | None"': ((None, 0), ('',)),
    'Dict[str, P]': (({}, {'a': {'x': 1}}), ({'a': {}}, [])),
    'Tuple[int, str]': (((1, 'a'), [1, 'a']), ((1,), ('a', 1))),
    'Literal[1, "s"]': ((1, 's'), (2, 'a')),
    'Any': ((None, object),  ()),
    'None': ((None,), (0, '')),
    'object': ((None, 0), ()),
}
KINDS = 'poakv'     # positional only, ordinary, *args, keyword only, **kwargs
NAMES = ('a', 'b', 'c')


def signatures(n, anns):
    """All valid parameter lists of n parameters: (kind, annotation, has default)."""
    for kinds in itertools.product(KINDS, repeat=n):
        order = [KINDS.index(k) for k in kinds]
        if order != sorted(order) or kinds.count('a') > 1 or kinds.count('v') > 1:
            continue
        defaults = [(False,) if k in 'av' else (False, True) for k in kinds]
        for ds in itertools.product(*defaults):
            pos = [d for k, d in zip(kinds, ds) if k in 'po']
            if pos != sorted(pos):
                continue
            for an in itertools.product(anns, repeat=n):
                yield tuple(zip(kinds, an, ds))


def source(params, ret, method=''):
    parts = []
    kinds = [k for k, _, _ in params]
    for i, (k, a, d) in enumerate(params):
        if k == 'k' and 'a' not in kinds and 'k' not in kinds[:i]:
            parts.append('*')
        good = VALUES[a][0][-1]
        text = dict(a='*', v='**').get(k, '') + NAMES[i] + (': ' + a if a else '')
        if d:
            text += ' = ' + repr(good if good is not object else None)
        parts.append(text)
        if k == 'p' and 'p' not in kinds[i + 1:]:
            parts.append('/')
    sig = ', '.join(parts)
    body = 'return BODY(locals())'
    if method == 'method':
        sig = 'self, ' + sig if sig else 'self'
        body = 'return BODY({k: v for k, v in locals().items() if k != "self"})'
    elif method == 'classmethod':
        sig = 'cls, ' + sig if sig else 'cls'
        body = 'return BODY({k: v for k, v in locals().items() if k != "cls"})'
    return f'def f({sig}){" -> " + ret if ret else ""}:\n    """Docs."""\n    {body}\n'


def calls(params):
    """All ways to call: list of (positional values, keyword values)."""
    res = []
    kinds = [k for k, _, _ in params]

    def choices(i):
        good, bad = VALUES[params[i][1]]
        return good[:2] + bad[:2] if len(params) < 3 else good[:1] + bad[:1]

    def rec(i, pos, kw, can_pos):
        if i == len(params):
            res.append((pos, kw))
            return
        k, a, d = params[i]
        good, bad = VALUES[a]
        if k in 'po' and can_pos:
            for v in choices(i):
                rec(i + 1, pos + (v,), kw, True)
        if k in 'ok':
            for v in choices(i):
                rec(i + 1, pos, kw + ((NAMES[i], v),), False)
        if k in 'pok':
            rec(i + 1, pos, kw, False)                  # absent
        if k == 'a':
            rec(i + 1, pos, kw, can_pos)
            if can_pos:
                for v in good[:1] + bad[:1]:
                    rec(i + 1, pos + (v,), kw, can_pos)
                for v in good[-1:] + bad[-1:]:
                    rec(i + 1, pos + (good[0], v), kw, can_pos)
        if k == 'v':
            rec(i + 1, pos, kw, can_pos)
            for v in good[:1] + bad[:1]:
                rec(i + 1, pos, kw + (('extra', v),), can_pos)
                rec(i + 1, pos, kw + (('more', good[0]), ('extra', v)), can_pos)
                if kinds[0] == 'p':
                    rec(i + 1, pos, kw + ((NAMES[0], v),), can_pos)
    rec(0, (), (), True)
    # superfluous and repeated arguments
    extra = []
    for pos, kw in res[:6]:
        extra.append((pos + (1,), kw))
        extra.append((pos, kw + (('unknown', 1),)))
        if kinds and kinds[0] in 'ok' and 'a' not in [k for k, _ in kw]:
            extra.append((pos, kw + (('a', 7),)))
        if kinds and kinds[0] == 'p':
            extra.append((pos, kw + (('a', 7),)))
    seen, out = set(), []
    for c in res + extra:
        if repr(c) not in seen and len({k for k, _ in c[1]}) == len(c[1]):
            seen.add(repr(c))
            out.append(c)
    return out


def conforms(v, a):
    good, bad = VALUES[a]
    if v in (1, 7) and type(v) is int:
        return a in ('', 'Any', 'object', 'int', 'float', 'Optional[int]', '"int | None"') or \
            v == 1 and a in ('E', 'Literal[1, "s"]')
    if a in ('', 'Any', 'object'):
        return True
    known = [any(v is g or type(v) is type(g) and v == g for g in x) for x in (good, bad)]
    assert known[0] != known[1], (v, a)
    return known[0]


class Body:
    """Stands for the body of the function: records the run, returns or raises."""

    def __init__(self):
        self.runs, self.result, self.error = [], None, None

    def __call__(self, args):
        self.runs.append(args)
        if self.error:
            raise self.error
        return self.result


def call(f, body, pos, kw):
    body.runs = []
    try:
        return 'result', f(*pos, **dict(kw)), body.runs
    except BaseException as e:
        return 'error', e, body.runs


def illtyped(params, args):
    for i, (k, a, d) in enumerate(params):
        v = args[NAMES[i]]
        if k == 'a':
            if any(not conforms(x, a) for x in v):
                return True
        elif k == 'v':
            if any(not conforms(x, a) for x in v.values()):
                return True
        elif not conforms(v, a):
            return True
    return False


def check(params, ret, how):
    """All calls of one decorated function."""
    mod = common.load_module(PRE)
    try:
        return check_in(mod.__dict__, params, ret, how)
    finally:
        common.unload(mod)


def check_in(ns, params, ret, how):
    body = ns['BODY'] = Body()
    method, check_ret = how
    src = source(params, ret, method)
    if method:
        deco = {'method': '', 'staticmethod': '@staticmethod\n', 'classmethod': '@classmethod\n'}[method]
        text = 'class C:\n' + ''.join('    ' + l + '\n' for l in (deco + '@type_check\n' + src).split('\n') if l)
        exec(src, ns)
        plain = {'method': lambda *p, **k: ns['f'](None, *p, **k), 'staticmethod': ns['f'],
                 'classmethod': lambda *p, **k: ns['f'](None, *p, **k)}[method]
        exec(text, ns)
        checked = ns['C']().f
    else:
        text = src
        exec(src, ns)
        plain = ns['f']
        checked = ns['type_check'](plain) if check_ret else ns['type_check'](plain, False)
    fails, n, known = [], 0, {}
    if checked.__name__ != 'f' or checked.__doc__ != 'Docs.':
        fails.append('name or documentation of the function are lost')
    results = [(v, True) for v in VALUES[ret][0]] + [(v, False) for v in VALUES[ret][1]]
    for c, (pos, kw) in enumerate(calls(params)):
        body.error = None
        body.result = results[c % len(results)][0]
        want = call(plain, body, pos, kw)
        if want[0] == 'error':      # not callable like that
            sorts = [('binding', results[0])]
        elif illtyped(params, want[2][0]):
            sorts = [('argument', results[0])]
        else:
            sorts = [('fault', results[0])] + [('ok' if good or not check_ret else 'result', (v, good))
                                               for v, good in results]
        for kind, (val, good) in sorts:
            n += 1
            body.result = val
            body.error = ns['Fault']() if kind == 'fault' else None
            got = call(checked, body, pos, kw)
            ok = {'binding': lambda: got[0] == 'error' and isinstance(got[1], TypeError) and not got[2],
                  'argument': lambda: got[0] == 'error' and isinstance(got[1], (TypeError, ValueError))
                  and not got[2],
                  'fault': lambda: got[0] == 'error' and got[1] is body.error and len(got[2]) == 1,
                  'result': lambda: got[0] == 'error' and isinstance(got[1], (TypeError, ValueError))
                  and len(got[2]) == 1,
                  'ok': lambda: got[0] == 'result' and got[1] is val and len(got[2]) == 1}[kind]()
            if ok and kind in ('fault', 'result', 'ok'):
                mine, theirs = got[2][0], want[2][0]
                ok = list(mine) == list(theirs) and all(
                    mine[k] is theirs[k] or type(mine[k]) is type(theirs[k]) and mine[k] == theirs[k]
                    for k in mine)
                if not ok:
                    fails.append(f'call {pos} {dict(kw)}: the body received {mine} instead of {theirs}')
                    break
            if not ok:
                what = dict(binding='arguments that do not fit the parameters', argument='an ill-typed argument',
                            fault='an exception in the body', result=f'the ill-typed result {val!r}',
                            ok=f'well-typed arguments and result {val!r}')[kind]
                msg = f'call {pos} {dict(kw)} with {what}: {got[0]} {got[1]!r}, body ran {len(got[2])} times'
                if hidden_default(params, pos, kw) and 'positional only' in str(got[1]) and not got[2]:
                    known[KEY] = msg
                    continue
                fails.append(msg)
                break
        if len(fails) > 2:
            break
    return n, fails + list(known.items()), text


KEY = 'keyword-named-like-omitted-positional-only-parameter'


def hidden_default(params, pos, kw):
    """The keyword arguments for ** contain the name of a positional-only parameter that has been omitted."""
    return params and params[-1][0] == 'v' and any(k == 'p' and d and i >= len(pos) and NAMES[i] in dict(kw)
                                        for i, (k, a, d) in enumerate(params))


def run_case(case):
    total, outs, known = 0, [], []
    for params, ret, how in case:
        if not any(a for _, a, _ in params) and not ret:
            continue
        n, fails, text = check(params, ret, how)
        total += n
        outs.append((params, ret, how))
        if any(isinstance(f, str) for f in fails):
            return dict(fail=fails, n=total, shown=text)
        known += fails
    return dict(n=total, outcomes=outs, fail=known)


HOW = (('', True), ('', False), ('method', True), ('staticmethod', True), ('classmethod', True))


def main():
    run = common.Run('C19')
    common.prepare()
    anns = list(VALUES)
    items = []
    for i, p in enumerate(itertools.chain(signatures(0, anns), signatures(1, anns))):
        for j, ret in enumerate(anns):
            for k, h in enumerate(HOW):
                if common.THOROUGH or (i + j + k + common.SEED) % 2 == 0:
                    items.append((p, ret, h))
    for i, p in enumerate(signatures(2, anns)):
        items.append((p, anns[i % len(anns)], HOW[(i // 3) % len(HOW)]))
    for i, p in enumerate(signatures(3, ('', 'int', '"P"', 'List["P"]') if common.THOROUGH else ('', 'int', '"P"'))):
        items.append((p, anns[i % len(anns)], HOW[(i // 3) % len(HOW)]))
    run.states = len(items)
    size = 30
    cases = [tuple(items[k:k + size]) for k in range(0, len(items), size)]
    common.execute(run, cases, run_case)
    run.transitions = run.traces
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(function=source(c[0][0], c[0][1]), variant=c[0][2]))
    run.rule = ('states: functions of up to three parameters of all kinds, with and without annotations and defaults, '
                'as function, method, static method and class method; transitions: calls in all ways (by position, by '
                'keyword, omitted, superfluous, repeated) with conforming and other values, results and exceptions')
    return run
