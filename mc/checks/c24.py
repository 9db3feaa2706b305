"""C24: functions and methods keep parameters, defaults and overloads."""
import inspect
import itertools
import keyword
import sys

import common
import spaces
import tsmodel as tm
from checks import docsem
from spaces import STR, NUM, INT, BOOL, NULL, ANY, OBJ, A, Z, E, F, L, M

K, Q = ('ref', 'K'), ('ref', 'Q')
VOID = ('b', 'void')
CTX_BEFORE = spaces.CTX_BEFORE + (('iface', 'K', (), (), (('()', 'm', '', (), VOID), ('k', '', STR))),)
CTX_AFTER = spaces.CTX_AFTER + (('iface', 'Q', (), (), (('()', 'm', '', (), VOID),)),)
CTX = CTX_BEFORE + CTX_AFTER
ANON = ('anon', (('u', '', STR), ('w', 'o', Z)))
TYPES = (None, STR, NUM, INT, BOOL, ANY, A, Z, K, Q, E, F, L, M, ('lit', 'x'), ANON, ('arr', A), ('arr', ANON), ('map', 'string', Z),
         ('tup', (STR, Z)), ('uni', (STR, Z)), ('uni', (A, NULL)), ('uni', (('lit', 'x'), ('lit', 2))),
         ('uni', (ANON, ('arr', STR))), ('fun', (('x', A),), STR), ('par', ('uni', (A, Q))),
         # types that end with None or contain what is special in signatures
         ('arr', NULL), ('tup', (STR, NULL)), ('map', 'string', NULL), ('map', 'string', ('uni', (A, NULL))), ('fun', (), NULL),
         ('arr', ('par', ('uni', (Z, NULL)))), ('uni', (A, ('tup', (Z, NULL)))), ('uni', (NULL, STR)), ('tup', (('uni', (Q, NULL)), Q)),
         ('lit', '= None'), ('lit', 'a, b: c'), ('uni', (('lit', '*'), Z)), ('fun', (('x', A, 'o'),), NULL), ('map', 'number', ('fun', (), A)))
FEW = (STR, A, Z, None, ('uni', (STR, ('arr', Z))), ANON)
RESTS = tuple(('arr', t) for t in (STR, A, Z, ('par', ('uni', (STR, Z))), ANON, ANY)) + (('app', 'Array', (STR,)), ('app', 'Array', (Z,)))
RETURNS = (VOID, None) + TYPES[1:]
PLACES = ('method', 'class', 'top', 'export', 'ns', 'module', 'anon', 'alias')
NAMES = ('foo', 'with', 'get', 'readonly_', 'f1', 'None', 'export')


def param(n, kind, T):
    return (n, kind, T)


def ts_fun(f, place):
    name, tps, params, ret = f
    s = name + ('<' + ', '.join(tps) + '>' if tps else '') + '(' + ', '.join(tm.ts_param(p, {}, '') for p in params) + ')' + \
        (': ' + tm.ts_type(ret) if ret is not None else '')
    if place in ('top', 'module'):
        return 'function ' + s + ';'
    if place in ('export', 'ns'):
        return 'export function ' + s + ';'
    return s + ';'


def ts_member(x, place):
    if x == 'iter':
        return '[Symbol.iterator](): A;'
    if isinstance(x[0], str) and len(x) == 3:
        return tm.ts_member(x) + ';'
    return ts_fun(x, place)


def text_of(members, place):
    lines = [ts_member(m, place) for m in members]
    before = '\n'.join(tm.ts_decl(d) for d in CTX_BEFORE)
    after = '\n'.join(tm.ts_decl(d) for d in CTX_AFTER)
    if place in ('top', 'export'):
        if len(lines) > 2:      # the declarations of one function need not be adjacent
            lines.insert(2, 'interface Between { b: A }')
        mid = '\n'.join(lines)
    else:
        head, foot = {'method': ('interface S {', '}'), 'class': ('export class S {', '}'), 'ns': ('namespace S {', '}'),
                      'module': ('declare module "mod" {', '}'), 'anon': ('interface S { m: {', '}; n: A }'),
                      'alias': ('type S = {', '};')}[place]
        mid = head + '\n    ' + '\n    '.join(lines) + '\n' + foot
        if place == 'module':
            return 'declare module "mod" {\n' + before + '\n' + '\n'.join(lines) + '\n' + after + '\n}\n'
    return before + '\n' + mid + '\n' + after + '\n'


def holder(mod, place):
    """The object that has got the functions as attributes."""
    if place in ('top', 'export', 'module'):
        return mod
    S = getattr(mod, 'S')
    if place != 'anon':
        return S
    hint = S.__annotations__['m']
    hint = getattr(hint, '__forward_arg__', hint)
    if isinstance(hint, str):
        hint = eval(hint, dict(mod.__dict__), dict(vars(S)))
    return hint


def py_name(n, method=False):
    if n == '':
        return '__call__'
    return n + '_' if keyword.iskeyword(n) or method and n == 'self' else n


def expected(f, cfg, method):
    name, tps, params, ret = f
    env = tm.env_of(CTX)
    ps = []
    for n, kind, T in params:
        if kind == '*':
            elem = T[2][0] if T[0] == 'app' else T[1]
            norm = tm.sem(elem, env, cfg, tps)
        elif T is None:
            norm = None
        else:
            norm = tm.sem(T, env, cfg, tps)
            if kind == 'o':
                norm = tm.union([norm, ('py', 'None')])
        ps.append((py_name(n, method), kind, norm))
    return tuple(ps), ('py', 'Any') if ret is None else tm.sem(ret, env, cfg, tps)


def observed(f, ns, skip_self):
    names = tm.names_of(CTX)
    ps = []
    for i, p in enumerate(inspect.signature(f).parameters.values()):
        if i == 0 and skip_self:
            if p.name != 'self' or p.kind != p.POSITIONAL_OR_KEYWORD or p.default is not p.empty:
                ps.append(('first parameter is not self', '', None))
            continue
        ann = None if p.annotation is p.empty else tm.pynorm(p.annotation, ns, names)
        kind = {p.VAR_POSITIONAL: '*', p.VAR_KEYWORD: '**', p.KEYWORD_ONLY: 'k'}.get(p.kind, '')
        if not kind and p.default is not p.empty:
            kind = 'o' if p.default is None else f'default {p.default!r}'
        ps.append((p.name, kind, ann))
    ret = inspect.signature(f).return_annotation
    return tuple(ps), None if ret is inspect.Signature.empty else tm.pynorm(ret, ns, names)


def sig_diff(exp, got):
    if [p[:2] for p in exp[0]] != [p[:2] for p in got[0]]:
        return f'has the parameters {[p[:2] for p in got[0]]} instead of {[p[:2] for p in exp[0]]}'
    for e, g in zip(exp[0], got[0]):
        if e[2] is None:
            if g[2] not in (None, ('py', 'Any'), ('U', (('py', 'Any'), ('py', 'None')))):
                return f'parameter {e[0]} without type is annotated with {g[2]}'
        elif g[2] is None or not tm.same(e[2], g[2]):
            return f'parameter {e[0]} means {g[2]} instead of {e[2]}'
    if got[1] is None or not tm.same(exp[1], got[1]):
        return f'returns {got[1]} instead of {exp[1]}'
    return ''


# ---------------------------------------------------------------- overloads

def classes(T, mod, top=True):
    """Classes of the values of a type; None if that is left open."""
    k = T[0]
    if k == 'b':
        return {'string': {str}, 'number': {float}, 'integer': {int}, 'boolean': {bool}, 'null': {type(None)},
                'object': {dict}, 'any': {object}}.get(T[1])
    if k == 'arr':
        return {list}
    if k == 'map':
        return {dict}
    if k == 'tup':
        return {tuple}
    if k == 'par':
        return classes(T[1], mod)
    if k == 'uni':
        parts = [classes(t, mod) for t in T[1]]
        return None if None in parts else set().union(*parts)
    if k == 'anon':
        return {dict}
    if k == 'ref':
        d = tm.env_of(CTX).get(T[1])
        if d[0] == 'alias':
            return classes(d[3], mod)
        if d[0] == 'enum':
            return {mod.__dict__[T[1]]}
        return {mod.__dict__[T[1]]} if any(m[0] == '()' for m in d[4]) else {dict}
    return None


def values(mod):
    ns = mod.__dict__
    return ['s', 1.5, 7, True, [], ['a'], {'u': 's'}, (1, 2), None, ns['K'](), ns['Q'](), ns['E'].one, ns['F'].red, b'x']


def route(call, mod):
    """Name of the first parameter of the last function of the module that has been called."""
    called = []

    def profile(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename == mod.__file__:
            c = frame.f_code
            called.append(c.co_varnames[:c.co_argcount] or c.co_varnames)
    sys.setprofile(profile)
    try:
        call()
        err = None
    except (TypeError, NameError) as e:
        err = e
    except Exception as e:
        err = RuntimeError(common.describe_exc(e))
    finally:
        sys.setprofile(None)
    return called, err


def check_calls(fs, func, mod, what):
    """fs: the overloads of a function, func(*args) calls it"""
    fails = []
    cls = {}
    open_ = False
    claimed = []
    for f in fs:
        T = f[2][0][2]
        cs = {object} if T is None else classes(T, mod)
        if cs is not None and f[2][0][1] == 'o':
            cs = cs | {type(None)}
        claimed.append(cs)
    # whether an optional argument of any type claims None before others do is left open
    none_open = any(cs is not None and {object, type(None)} <= cs for cs in claimed)
    for v in values(mod):
        if v is None and none_open:
            continue
        cands = [i for i, cs in enumerate(claimed) if cs is not None and type(v) in cs]
        if not cands:
            for c in type(v).__mro__[1:]:
                cands = [i for i, cs in enumerate(claimed) if cs is not None and c in cs]
                if cands:
                    break
        if len(cands) > 1:
            continue
        for args in ('required', 'all'):
            i = cands[0] if cands else 0
            rest = [None] * sum(1 for p in fs[i][2][1:] if p[1] == '' or args == 'all')
            called, err = route(lambda: func(v, *rest), mod)
            got = {n for c in called for n in c}
            hit = [j for j, f in enumerate(fs) if py_name(f[2][0][0]) in got]
            if isinstance(err, RuntimeError):
                fails.append(f'{what}({v!r}) raises {err}')
            elif cands and (hit != cands or err):
                fails.append(f'{what}({v!r}) with {len(rest)} further arguments calls declaration '
                             f'{hit or "none"} instead of {cands[0]} ({err!r})')
            elif not cands and hit and not all(may(fs[j][2][0][2] or ANY, v) for j in hit):
                fails.append(f'{what}({v!r}) calls declaration {hit}, which does not accept such a value')
    return fails


def may(T, v):
    """May a declaration be selected, although the class of the value is not the one of the annotation?"""
    k = T[0]
    if k == 'par':
        return may(T[1], v)
    if k == 'uni':
        return any(may(t, v) for t in T[1])
    if k == 'ref' and tm.env_of(CTX)[T[1]][0] == 'alias':
        return may(tm.env_of(CTX)[T[1]][3], v)
    if k == 'b':
        return T[1] == 'number' and isinstance(v, int)
    if k == 'tup':
        return isinstance(v, list)
    return k in ('lit', 'fun')


def brief(members, place, cfg, code):
    lines = common.body(code or '').split('\n')
    i = next((i for i, x in enumerate(lines) if x.startswith(('class S', 'S =', 'def foo', '@single'))), 0)
    return place + ' ' + ' '.join(ts_member(m, place) for m in members) + '\n' + str(cfg) + '\n' + '\n'.join(lines[i:i + 40])


def run_case(case):
    members, place, cfgi = case
    cfg = dict(spaces.CONFIGS[cfgi])
    text = text_of(members, place)
    mod, code, fail = docsem.compile_and_load(text, cfg)
    if fail:
        return dict(fail=[fail], shown=brief(members, place, cfg, code))
    fails = []
    fs = [m for m in members if m != 'iter' and not (isinstance(m[0], str) and len(m) == 3)]
    props = [m for m in members if m != 'iter' and isinstance(m[0], str) and len(m) == 3]
    method = place in ('method', 'class', 'anon', 'alias')
    out = []
    try:
        obj = holder(mod, place)
        ns = dict(mod.__dict__)
        if method or place == 'ns':
            ns.update((k, v) for k, v in vars(obj).items() if isinstance(v, type))
        sets = {}
        for f in fs:
            sets.setdefault(py_name(f[0]), []).append(f)
        raw = vars(obj)
        for p in props:
            if p[0] not in raw.get('__annotations__', {}):
                fails.append(f'property {p[0]} is missing')
        if 'iter' in members and not callable(raw.get('__iter__')):
            fails.append('no __iter__')
        for name, group in sets.items():
            got = raw.get(name)
            if got is None:
                fails.append(f'no function {name}')
                continue
            if len(group) == 1:
                if not inspect.isfunction(got):
                    fails.append(f'{name} is {got!r}')
                    continue
                d = sig_diff(expected(group[0], cfg, method), observed(got, ns, method))
                out.append((name, str(observed(got, ns, method))))
                if d:
                    fails.append(f'{name} {d}')
                continue
            if place in ('method', 'class'):
                inst = obj()
                func = inst if name == '__call__' else getattr(inst, name)
            elif method:        # anonymous interfaces are data types, the instances of which are dictionaries
                func = got.__get__({}, obj)
            else:
                func = getattr(obj, name)
            fails += check_calls(group, func, mod, name)
            disp = getattr(got, 'dispatcher', got)
            if not hasattr(disp, 'registry'):
                fails.append(f'{name} is not overloaded')
                continue
            impls = {}
            for impl in disp.registry.values():
                for n in inspect.signature(impl).parameters:
                    impls.setdefault(n, impl)
            for f in group:
                cs = {object} if f[2][0][2] is None else classes(f[2][0][2], mod)
                impl = impls.get(py_name(f[2][0][0], method))
                if cs is None or impl is None:
                    # left open; may be hidden by a later declaration with the same class
                    if cs and not any(g is not f and (classes(g[2][0][2] or ANY, mod) or set()) & cs for g in group):
                        fails.append(f'{name}: declaration {f[2][0][0]} is not registered')
                    continue
                d = sig_diff(expected(f, cfg, method), observed(impl, ns, method))
                out.append((name, str(observed(impl, ns, method))))
                if d:
                    fails.append(f'{name}, declaration {f[2][0][0]}: {d}')
    finally:
        common.unload(mod)
    return dict(fail=fails[:3], outcomes=out, shown=brief(members, place, cfg, code) if fails else '')


# ---------------------------------------------------------------- the space

def signatures():
    """(members, weight): all signatures within the bounds"""
    for r in RETURNS:
        yield (('foo', (), (), r),), 1
        yield (('foo', (), (param('a', '', A),), r),), 2
    for t in TYPES:
        for kind in ('', 'o'):
            yield (('foo', (), (param('a', kind, t),), STR),), 1
            yield (('foo', (), (param('b', '', STR), param('a', kind, t)), A),), 2
            yield (('foo', (), (param('a', kind, t), param('c', 'o', t)), VOID),), 2
    for t in RESTS:
        yield (('foo', (), (param('r', '*', t),), STR),), 1
        for s in FEW:
            for kind in ('', 'o'):
                yield (('foo', (), (param('a', kind, s), param('r', '*', t)), Z),), 2
    for t, s, u in itertools.product(FEW, repeat=3):
        for kinds in (('', '', ''), ('', '', 'o'), ('', 'o', 'o'), ('o', 'o', 'o')):
            yield (('foo', (), tuple(param(n, k, x) for n, k, x in zip('abc', kinds, (t, s, u))), A),), 3
    T, U = ('ref', 'T'), ('ref', 'U')
    for t in (T, ('arr', T), ('uni', (T, STR)), ('map', 'string', T), ('anon', (('g', '', T),))):
        for r in (T, ('arr', T), VOID, ('uni', (T, Z))):
            yield (('foo', ('T',), (param('a', '', t), param('b', 'o', T)), r),), 2
            yield (('foo', ('T', 'U'), (param('a', '', t), param('b', '', U)), r),), 2
    for n in NAMES:
        for m in ('self', 'class', 'cls', 'arg1', 'name', 'print', 'a', 'readonly', 'string', 'type', 'True_'):
            yield ((n, (), (param(m, '', STR), param('x', 'o', A)), VOID),), 2
            yield ((n, (), (param('x', '', STR), param(m, '', A)), VOID),), 2


FIRST = (STR, NUM, INT, BOOL, NULL, ANY, None, A, Z, K, Q, E, F, L, M, ('arr', STR), ('map', 'string', A), ANON,
         ('uni', (STR, ('arr', STR))), ('uni', (K, NUM)), ('uni', (Q, NULL)), ('par', STR), ('uni', (Z, INT)))
TAILS = ((), (('b', '', A),), (('b', 'o', Z),), (('b', '', STR), ('c', 'o', ANON)))
EXTRA = (('', (), (('q', '', A),), STR), 'iter', ('prop', '', A), ('other', (), (('z', '', Z),), A), ('z', 'o', STR))


def overload(name, firsts, sel, kind=''):
    return tuple((name, (), (('a%d' % i, kind if i == 0 else '', t),) + TAILS[((sel + i) % 2 * 2) if kind and i == 0 else (sel + i) % len(TAILS)], (STR, A, VOID, Z, None)[(sel + i) % 5])
                 for i, t in enumerate(firsts))


def overloads():
    n = 0
    for pair in itertools.permutations(FIRST, 2):
        n += 1
        yield overload('foo', pair, n), 1
        yield overload('foo', pair, n + 1, 'o'), 3
    for triple in itertools.permutations((STR, NUM, K, Q, E, ('arr', Z), A, None, ('uni', (STR, INT))), 3):
        n += 1
        yield overload('foo', triple, n), 3
    for four in itertools.permutations((STR, Q, F, ('arr', Z)), 4):
        n += 1
        yield overload('bar', four, n), 2
    # other members before, between and after the overloads
    for pair in ((STR, NUM), (K, Z), (STR, Q), (Q, K)):
        for x in EXTRA:
            n += 1
            o = overload('foo', pair, n)
            for pos in range(3):
                yield o[:pos] + (x,) + o[pos:], 1
            for y in EXTRA:
                if y != x:
                    yield (x,) + o[:1] + (y,) + o[1:], 2
        # two overloaded functions, interleaved in all ways
        o1, o2 = overload('foo', pair, n), overload('bar', pair[::-1], n + 1)
        for ix in itertools.combinations(range(4), 2):
            a, b = iter(o1), iter(o2)
            yield tuple(next(a) if i in ix else next(b) for i in range(4)), 1
        for name in NAMES + ('',):
            yield overload(name, pair, n), 1
            yield (('', (), (('q', '', A),), STR),) * (name != '') + overload(name, pair, n), 1


def ladder():
    """Long parameter lists, many functions, many overloads."""
    for n in list(range(4, 13)) + [16, 17, 33]:
        ts = [FEW[(i * 5 + n) % len(FEW)] for i in range(n)]
        for opt in (0, 1, n // 2, n):
            yield (('foo', (), tuple(param(f'p{i}', '' if i < n - opt else 'o', t) for i, t in enumerate(ts)), A),), 1
        yield (('foo', (), tuple(param(f'p{i}', '', t) for i, t in enumerate(ts)) + (param('r', '*', ('arr', Z)),), A),), 1
        yield tuple((f'f{i}', (), (param('a', 'o' if i % 2 else '', t),), ts[-i]) for i, t in enumerate(ts)), 1
        if n < 9:
            firsts = (STR, K, ('arr', Z), Q, E, INT, F, BOOL)
            for r in range(0, 8, 3):
                yield overload('foo', (firsts[r:] + firsts[:r])[:n], n + r), 1
        # many pairs of overloads
        yield tuple(f for i in range(min(n, 12)) for f in overload(f'f{i}', ((K, STR), (STR, Z), (Q, ('arr', A)))[i % 3], i)), 1


def admissible(members, place):
    if place in ('top', 'export', 'ns', 'module'):
        if any(m == 'iter' or isinstance(m[0], str) and len(m) == 3 or m[0] == '' for m in members):
            return False
    names = [m[0] for m in members if m != 'iter']
    if place == 'ns' and len(members) == 0:
        return False
    if place in ('top', 'module', 'export', 'ns') and any(n in ('export', 'None') for n in names):
        return False
    return True


def main():
    run = common.Run('C24')
    common.prepare()
    cases, n = [], 0
    nc = len(spaces.CONFIGS)
    space = list(signatures()) + list(overloads()) + list(ladder())
    for members, weight in space:
        for p, place in enumerate(PLACES):
            if not admissible(members, place):
                continue
            n += 1
            if not common.THOROUGH and weight > 1 and (n + common.SEED) % (4 if weight == 2 else 10):
                continue
            for j in range(3 if common.THOROUGH else 1):
                cases.append((members, place, (n * 7 + j * 5 + common.SEED) % nc))
    run.states = run.transitions = len(cases)
    run.extra['space'] = n
    common.execute(run, cases, run_case)
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(text=text_of(c[0], c[1])[:1500], config=spaces.CONFIGS[c[2]]))
    run.rule = ('states: (signatures of one to four functions, place) - all signatures of up to three parameters within an alphabet '
                'of types, all pairs of first types and a choice of triples and quadruples as overloads, long parameter lists, many functions and overloads, with other members before, '
                f'between and after them, in {len(PLACES)} places under rotating option sets (quick: slices of the larger ones)')
    return run
