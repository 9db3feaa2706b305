"""Documents: a menu of declarations, explored breadth first, and a neutral
description of generated modules."""

import inspect
import typing

import common
import tsmodel as tm
from spaces import STR, NUM, INT, BOOL, NULL, ANY, OBJ, A, Z, E, F, L, M
from spaces import CTX_BEFORE, CTX_AFTER

N, G, K = ('ref', 'N'), ('ref', 'G'), ('ref', 'K')
T = ('ref', 'T')


def app(*args):
    return ('app', 'G', args)


def anon(*members):
    return ('anon', members)


def uni(*parts):
    return ('uni', parts)


def arr(t):
    return ('arr', t)


def tup(*parts):
    return ('tup', parts)


def mp(t, key='string'):
    return ('map', key, t)


def lit(v):
    return ('lit', v)


# declarations every document contains, before or after the items of the menu
CTX1 = CTX_BEFORE + (
    ('cns', 'N', (('p', 'pp', None), ('q', 'qq', None))),
    ('iface', 'G', ('T',), (), (('gx', '', T), ('gl', 'o', arr(T)))),
)
CTX2 = CTX_AFTER


def iface(*members, bases=(), tps=()):
    return lambda n: (('iface', n, tps, bases, members),)


def alias(t, tps=()):
    return lambda n: (('alias', n, tps, t),)


def enum(*items):
    return lambda n: (('enum', n, items),)


def cns(*items):
    return lambda n: (('cns', n, items),)


def const(typ, v):
    return lambda n: (('const', n, typ, v),)


def func(*sigs):
    return lambda n: tuple(('func', n, ps, r) for ps, r in sigs)


def self_ref(n):
    s = ('ref', n)
    return (('iface', n, (), (), (('parent', 'o', s), ('kids', '', arr(s)), ('by', 'o', mp(s)),
                                  ('alt', '', uni(s, NULL)), ('pair', 'o', tup(s, STR)))),)


def mutual(n):
    a, b = n, n + 'x'
    return (('iface', a, (), (), (('other', '', ('ref', b)), ('z', 'o', Z))),
            ('iface', b, (), (), (('back', 'o', arr(('ref', a))),)))


def chain(n):
    return (('iface', n, (), (A,), (('c1', '', uni(STR, NUM)),)),
            ('iface', n + 'y', (), (('ref', n),), (('c2', 'o', E), ('c1', '', STR))),
            ('iface', n + 'z', (), (('ref', n + 'y'),), ()))


def two_bases(n):
    return (('iface', n + 'b', (), (), (('b1', 'o', Z), ('b2', '', arr(Z)))),
            ('iface', n, (), (A, ('ref', n + 'b')), (('own', '', BOOL),)))


def sibling_anon(n):
    """The same member names on different levels and in different interfaces."""
    d = anon(('data', '', anon(('data', '', STR))), ('x', 'o', INT))
    return (('iface', n, (), (), (('data', '', d), ('x', '', anon(('y', '', INT))))),
            ('iface', n + 'q', (), (), (('data', 'o', anon(('x', '', BOOL))),
                                        ('x', '', arr(anon(('y', '', STR)))))))


def generic(n):
    t = ('ref', 'T')
    return (('iface', n, ('T',), (), (('v', '', t), ('l', 'o', arr(t)), ('m', '', mp(t)),
                                      ('u', '', uni(t, STR)), ('w', 'o', anon(('i', '', t))))),)


def generic_two(n):
    return (('iface', n, ('U', 'V'), (), (('u', '', ('ref', 'U')), ('v', 'o', ('ref', 'V')))),
            ('iface', n + 'i', (), (), (('g', '', ('app', n, (STR, A))), ('h', 'o', ('app', n, (INT, Z))))))


MENU = {
    'basic': iface(('s', '', STR), ('n', 'o', NUM), ('i', 'r', INT), ('b', 'or', BOOL), ('z', '', NULL),
                   ('a', '', ANY), ('o', 'o', OBJ), ('e', '', None), ('eo', 'o', None)),
    'refs': iface(('a', '', A), ('z', 'o', Z), ('e', '', E), ('f', 'o', F), ('l', '', L), ('m', '', M),
                  ('n', '', N), ('g', 'o', app(STR)), ('gz', '', app(Z))),
    'containers': iface(('l', '', arr(A)), ('ll', 'o', arr(arr(Z))), ('t', '', tup(A, Z, STR)),
                        ('mz', '', mp(Z)), ('ml', 'o', mp(arr(INT))), ('tl', '', arr(tup(INT, E)))),
    'unions': iface(('u', '', uni(STR, Z, NULL)), ('v', 'o', uni(A, arr(Z))), ('w', '', uni(NULL, STR)),
                    ('x', '', arr(uni(STR, Z))), ('y', 'o', uni(E, F)), ('q', '', uni(mp(Z), A))),
    'anon2': iface(('a', '', anon(('b', '', anon(('c', '', Z), ('d', 'o', STR))))), ('e', 'o', anon(('f', 'o', A)))),
    'anon_pos': iface(('l', '', arr(anon(('x', '', INT)))), ('u', 'o', uni(anon(('p', '', STR)), anon(('q', '', Z)), STR)),
                      ('m', '', mp(anon(('y', 'o', A)))), ('t', '', tup(anon(('z', '', STR)), INT)), ('n', '', anon())),
    'extends': iface(('s', '', STR), ('ax', '', STR), bases=(A,)),
    'extends_generic': iface(('s', 'o', Z), bases=(app(STR),)),
    'generic': generic,
    'generic_two': generic_two,
    'generic_derived': iface(('d', '', T), bases=(app(T),), tps=('T',)),
    'empty': iface(),
    'self_ref': self_ref,
    'mutual': mutual,
    'chain': chain,
    'two_bases': two_bases,
    'sibling_anon': sibling_anon,
    'literals': iface(('k', '', uni(lit('a'), lit('b'))), ('n', 'o', uni(lit(1), lit(2))), ('t', '', lit(True)),
                      ('mix', 'o', uni(lit('a'), INT, NULL)), ('f', '', lit(1.5)), ('q', '', arr(lit('Z')))),
    'callbacks': iface(('cb', '', ('fun', (('a', A), ('z', Z)), STR)), ('cv', 'o', ('fun', (), ('b', 'void')))),
    'methods': iface(('s', '', STR), ('()', 'foo', '', (('a', '', A), ('b', 'o', Z), ('c', '*', arr(STR))), arr(A)),
                     ('()', 'bar', 'o', (), None)),
    'overloads': iface(('()', 'foo', '', (('a', '', A),), STR), ('()', 'foo', '', (('s', '', STR), ('z', 'o', Z)), INT)),
    'alias_union': alias(uni(STR, Z, A)),
    'alias_fwd': alias(Z),
    'alias_lit': alias(uni(lit('a'), lit('b'), lit('Z'))),
    'alias_litmix': alias(uni(lit('a'), NULL, INT)),
    'alias_anon': alias(anon(('a', '', STR), ('z', 'o', Z), ('n', '', anon(('q', '', INT))))),
    'alias_arr': alias(arr(uni(A, Z))),
    'alias_arranon': alias(arr(anon(('a', '', STR)))),
    'alias_tup': alias(tup(STR, Z, E)),
    'alias_map': alias(mp(uni(Z, INT))),
    'alias_fun': alias(('fun', (('a', A), ('b', STR)), uni(STR, NULL))),
    'alias_app': alias(app(Z)),
    'alias_generic': alias(uni(T, arr(T)), tps=('T',)),
    'alias_null': alias(uni(NULL, A)),
    'enum_num': enum(('a', 1), ('b', -2), ('c', 30)),
    'enum_str': enum(('a', 'x'), ('b', "y z")),
    'enum_auto': enum(('a', None), ('b', None), ('c', None)),
    'enum_mixed': enum(('a', 'x'), ('b', 2)),
    'cns_num': cns(('a', 1, None), ('b', -1, 'number')),
    'cns_str': cns(('a', 'x', None), ('b', 'y', 'string')),
    'cns_float': cns(('a', 1.5, None), ('b', 2, None)),
    'cns_mixed': cns(('a', 1, None), ('b', 'x', None), ('c', 2, 'number')),
    'const_num': const('number', 3),
    'const_str': const(None, 'text'),
    'const_bool': const('boolean', True),
    'func': func(((('a', '', A), ('b', 'o', uni(STR, Z)), ('r', '*', arr(INT))), arr(Z))),
    'func_anon': func(((('a', '', anon(('x', '', Z))), ('b', 'o', arr(anon(('y', '', STR))))), anon(('w', '', STR)))),
    'func_over': func(((('a', '', A),), STR), ((('s', '', STR), ('z', 'o', Z)), INT)),
}
DATA_MENU = [k for k in MENU if k not in ('methods', 'overloads', 'callbacks', 'func', 'func_anon', 'func_over',
                                          'alias_fun', 'const_num', 'const_str', 'const_bool')]
CALLABLE_MENU = ['methods', 'overloads', 'func', 'func_anon', 'func_over']
# items which have to follow the first part of the context, because they extend its interfaces
NEEDS_CTX1 = {'extends', 'extends_generic', 'generic_derived', 'chain', 'two_bases'}


def build(keys, ctx='around'):
    """Document consisting of the items of the menu and the context."""
    decls = ()
    for i, k in enumerate(keys):
        decls += MENU[k](f'S{i + 1}')
    if ctx == 'around':
        return CTX1 + decls + CTX2
    if ctx == 'before':
        return CTX1 + CTX2 + decls
    if ctx == 'after':
        return decls + CTX2 + CTX1
    if ctx == 'between':
        h = len(MENU[keys[0]]('S1')) if keys else 0
        return decls[:h] + CTX1 + decls[h:] + CTX2
    raise ValueError(ctx)


def allowed(keys, ctx):
    if ctx == 'after':
        return not any(k in NEEDS_CTX1 for k in keys)
    if ctx == 'between':
        return bool(keys) and keys[0] not in NEEDS_CTX1
    return True


CTXS = ('around', 'before', 'after', 'between')


def states(depth, menu=None, ctxs=CTXS):
    """All (item sequence, context placement) up to the given length."""
    menu = list(menu or MENU)

    def succ(s):
        keys, ctx = s
        for k in menu:
            t = (keys + (k,), ctx)
            if allowed(*t):
                yield t
    return common.bfs([((k,), c) for c in ctxs for k in menu if allowed((k,), c)], succ,
                      max_depth=depth - 1)


# ------------------------------------------------------------------ modules

def nested_classes(c, seen=None):
    seen = seen if seen is not None else set()
    for v in list(c.__dict__.values()):
        if isinstance(v, type) and v not in seen and v.__module__ == c.__module__:
            seen.add(v)
            yield v
            yield from nested_classes(v, seen)


def unresolved(mod, doc=()):
    """Evaluates all annotations of a module; returns failures."""
    fails = []

    def hints(obj, what):
        try:
            return typing.get_type_hints(obj)
        except Exception as e:
            fails.append(f'annotations of {what} cannot be evaluated: {common.describe_exc(e)}')

    hints(mod, 'module')
    own = [(k, v) for k, v in list(mod.__dict__.items())
           if getattr(v, '__module__', None) == mod.__name__]
    done = set()

    def funcs(f):
        f = inspect.unwrap(f) if not isinstance(f, type) else f
        if inspect.isfunction(f):
            yield f
        reg = getattr(f, 'registry', None)
        if reg:
            yield from (x for x in reg.values() if inspect.isfunction(x))
        d = getattr(f, 'dispatcher', None)
        if d is not None and getattr(d, 'registry', None):
            yield from (x for x in d.registry.values() if inspect.isfunction(x))

    def visit_class(c):
        if c in done:
            return
        done.add(c)
        hints(c, c.__qualname__)
        for k, v in list(c.__dict__.items()):
            if isinstance(v, type) and v.__module__ == mod.__name__:
                visit_class(v)
            elif not k.startswith('__'):
                for f in funcs(v):
                    hints(f, f'{c.__qualname__}.{k}')
    for k, v in own:
        if isinstance(v, type):
            visit_class(v)
        else:
            for f in funcs(v):
                hints(f, k)
    names = tm.names_of(doc)
    for n in [d[1] for d in doc if d[0] == "alias"]:
        if n in mod.__dict__:
            r = repr(tm.pynorm(n, mod.__dict__, names))
            if "'unres'" in r:
                fails.append(f'{n} contains an unresolvable reference: {r[:200]}')
    return fails


def signature(f, ns, names, skip_self=False):
    sig = inspect.signature(f)
    ps = []
    for i, p in enumerate(sig.parameters.values()):
        if i == 0 and skip_self:
            continue
        ann = None if p.annotation is p.empty else tm.pynorm(p.annotation, ns, names)
        kind = {p.VAR_POSITIONAL: '*', p.VAR_KEYWORD: '**'}.get(p.kind, '')
        if not kind and p.default is not p.empty:
            kind = 'o'
        ps.append((p.name, kind, ann))
    ret = None if sig.return_annotation is sig.empty else \
        tm.pynorm(sig.return_annotation, ns, names)
    return tuple(ps), ret


def describe(mod, doc, cfg=None):
    """name -> description of what was generated for every declaration."""
    import enum as _enum
    ns = mod.__dict__
    names = tm.names_of(doc)
    res = {}
    for d in doc:
        k, n = d[0], d[1]
        obj = ns.get(n, ns)
        if obj is ns:
            res[n] = ('missing',)
        elif k == 'iface':
            if tm.is_td(obj):
                res[n] = ('td', tm.td_members(obj, ns, names), tuple(sorted(obj.__required_keys__)),
                          tuple(sorted(obj.__optional_keys__)))
            else:
                ms = {}
                for kk, v in own_members(obj):
                    ms[kk] = v
                res[n] = ('class', tuple(sorted(
                    (kk, tm.pynorm(v, ns, names)) for kk, v in tm.own_hints(obj).items())),
                    tuple((kk, fun_desc(v, ns, names, True)) for kk, v in sorted(ms.items())))
        elif k == 'alias':
            res[n] = ('alias', tm.pynorm(n, ns, names))
        elif k in ('enum', 'cns'):
            if isinstance(obj, type) and issubclass(obj, _enum.Enum):
                res[n] = ('enum', obj.__mro__[1].__name__,
                          tuple((i, m.value) for i, m in obj.__members__.items()))
            elif isinstance(obj, type):
                res[n] = ('plain', tuple((i, v) for i, v in obj.__dict__.items() if i[:2] != '__'))
            else:
                res[n] = ('?', repr(obj))
        elif k == 'const':
            res[n] = ('const', type(obj).__name__, obj)
        elif k == 'func':
            res[n] = fun_desc(obj, ns, names, False)
    return res


def own_members(c):
    for k, v in c.__dict__.items():
        if k.startswith('__') or isinstance(v, type):
            continue
        yield k, v


def fun_desc(f, ns, names, method):
    d = getattr(f, 'dispatcher', f)
    if hasattr(d, 'registry'):
        try:
            d.dispatch(object)          # resolves what has been postponed
        except Exception as e:
            return ('broken dispatcher', common.describe_exc(e))
        impls = tuple(sorted(((c.__qualname__, signature(impl, ns, names, method))
                              for c, impl in dict(d.registry).items() if c is not object), key=repr))
        return ('dispatch', impls)
    if inspect.isfunction(f):
        return ('func', signature(f, ns, names, method))
    return ('?', repr(f))
