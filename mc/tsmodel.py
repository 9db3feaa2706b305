"""Reference model of the supported TypeScript subset.

Terms are nested tuples (hashable, JSON-able):

types     ('b', name)             basic type
          ('lit', value)          literal type (str, int, float, bool)
          ('arr', T) ('tup', (T..)) ('vtup', T) ('ltup', ((label, flag, T)..)) ('map', keybasic, T) ('uni', (T..))
          ('ref', name)           reference to a declaration or type parameter
          ('app', name, (T..))    instance of a generic interface
          ('anon', (member..))    anonymous interface
          ('par', T)              parenthesised type
          ('fun', ((name, T[, kind])..), T)
members   (name, flags, T|None)   flags: string out of 'o' (optional) 'r' (readonly)
          ('()', name, flags, params, T)   method;  params (name, kind, T|None),
                                           kind '' | 'o' | '*'
          ('vtup', T): tuple of any length, in Python only
decls     ('iface', name, tparams, bases, members)   bases: type terms
          ('alias', name, tparams, T)
          ('enum', name, ((item, value|None)..))
          ('cns', name, ((item, value, typename|None)..))   constant namespace
          ('const', name, typename|None, value)
          ('func', name, params, T|None)

The model yields the TypeScript text in any of several styles, the Python
meaning of every type under a configuration, and whether a JSON value conforms.
"""

import json

# ------------------------------------------------------------------ rendering

PLAIN = {}


def lit_ts(v, q='"'):
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if isinstance(v, str):
        if q in v:
            q = '"' if q == "'" else "'"
        return q + v + q
    if isinstance(v, list):
        return '[' + ', '.join(lit_ts(x, q) for x in v) + ']'
    if isinstance(v, dict):     # every second key in quotation marks
        return '{ ' + ', '.join(('"' + k + '"' if i % 2 else k) + ': ' + lit_ts(x, q) for i, (k, x) in enumerate(v.items())) + ' }'
    return repr(v)


def _array_param_ok(T):
    """Can T stand between the angle brackets of a type parameter?"""
    if T[0] in ('b', 'ref', 'arr', 'tup', 'ltup', 'anon', 'app'):
        return T[0] != 'arr' or True
    if T[0] == 'uni':
        return all(_array_param_ok(t) for t in T[1])
    return False


def ts_type(T, st=PLAIN, ind=''):
    k = T[0]
    if k == 'b':
        return T[1]
    if k == 'lit':
        return lit_ts(T[1], st.get('quote', '"'))
    if k == 'ref':
        return T[1]
    if k == 'par':
        return '(' + ts_type(T[1], st, ind) + ')'
    if k == 'arr':
        E = T[1]
        if st.get('array') in ('Array', 'ReadonlyArray') and _array_param_ok(E):
            return st['array'] + '<' + type_args((E,), st, ind) + '>'
        s = ts_type(E, st, ind)
        if E[0] in ('uni', 'arr', 'lit', 'map', 'fun', 'ltup'):
            s = '(' + s + ')'
        return ('readonly ' if st.get('ro_array') else '') + s + '[]'
    if k == 'vtup':
        return '[...' + ts_type(T[1], st, ind) + ']'
    if k == 'tup':
        return '[' + ', '.join(ts_type(t, st, ind) for t in T[1]) + ']'
    if k == 'ltup':
        return '[' + ', '.join(f'{n}{"?" if f else ""}: {ts_type(t, st, ind)}' for n, f, t in T[1]) + ']'
    if k == 'map':
        return '{ ' + map_key_ts(T[1]) + ': ' + ts_type(T[2], st, ind) + \
            (';' if st.get('map_semi') else '') + ' }'
    if k == 'uni':
        parts = []
        for t in T[1]:
            s = ts_type(t, st, ind)
            if t[0] == 'fun' or st.get('paren_union') and t[0] not in ('par',):
                s = '(' + s + ')'
            parts.append(s)
        return ('| ' if st.get('bar') else '') + ' | '.join(parts)
    if k == 'app':
        return T[1] + '<' + type_args(T[2], st, ind) + '>'
    if k == 'anon':
        if not T[1]:
            return '{}'
        return ts_block(T[1], st, ind)
    if k == 'fun':
        return '(' + ', '.join(ts_param((p[0], p[2] if len(p) > 2 else '', p[1]), st, ind)
                               for p in T[1]) + ') => ' + ts_type(T[2], st, ind)
    raise ValueError(T)


def type_args(ts, st, ind):
    bar = '| ' if st.get('pbar') else ''
    return ', '.join((bar if not st.get('bar') or t[0] != 'uni' else '') + ts_type(t, st, ind) for t in ts)


def map_key_ts(k):
    """k: name of a basic type or (notation, name of a type)"""
    if isinstance(k, str):
        return '[key: ' + k + ']'
    return {'o': '[key: %s]?', 'in': '[key in %s]', 'ro': 'readonly [key: %s]', 'keyof': '[key in keyof %s]'}[k[0]] % k[1]


def map_key_sem(k, env, cfg, tvs=(), stack=()):
    if isinstance(k, str):
        return sem(('b', k), env, cfg, tvs, stack)
    if k[0] == 'keyof':
        return ('py', 'Any')
    t = sem(('b', k[1]) if k[1] in PY_BASIC else ('ref', k[1]), env, cfg, tvs, stack)
    return union([t, ('py', 'None')]) if k[0] == 'o' else t


def ts_param(p, st, ind):
    n, kind, T = p
    if kind == '*' and st.get('ro_array'):
        st = {**st, 'ro_array': False}      # not covered by the grammar
    s = ('...' if kind == '*' else '') + n + ('?' if kind == 'o' else '')
    return s + (': ' + ts_type(T, st, ind) if T is not None else '')


def ts_member(m, st=PLAIN, ind=''):
    if m[0] == '()':
        _, name, flags, params, ret = m
        return st.get('fqual', '') + name + ('?' if 'o' in flags else '') + \
            '(' + ', '.join(ts_param(p, st, ind) for p in params) + ')' + \
            (': ' + ts_type(ret, st, ind) if ret is not None else '')
    name, flags, T = m
    ro = st.get('qual') or ('readonly ' if ('r' in flags or st.get('readonly')) else '')
    return ro + name + ('?' if 'o' in flags else '') + \
        (': ' + ts_type(T, st, ind) if T is not None else '')


def ts_block(members, st=PLAIN, ind=''):
    sep = st.get('sep', ';')
    inner = ind + '    '
    if not members:
        return '{ }' if st.get('oneline') else '{\n' + ind + '}'
    if st.get('oneline'):
        return '{ ' + (sep + ' ').join(ts_member(m, st, ind) for m in members) + \
            ('' if st.get('notrail') else sep) + ' }'
    lines = [inner + ts_member(m, st, inner) for m in members]
    s = (sep + '\n').join(lines)
    if lines and not st.get('notrail'):
        s += sep
    return '{\n' + s + '\n' + ind + '}'


def ts_decl(d, st=PLAIN):
    exp = 'export ' if st.get('export') else ''
    k = d[0]
    if k == 'iface':
        _, name, tps, bases, members = d
        s = exp + ('declare ' if st.get('declare') else '') + st.get('kw', 'interface') + ' ' + name
        if tps:
            s += '<' + ', '.join(tps) + '>'
        if bases:
            s += ' ' + st.get('ext', 'extends') + ' ' + ', '.join(ts_type(b, st) for b in bases)
        return s + ' ' + ts_block(members, st) + (';' if st.get('isemi') else '')
    if k == 'alias':
        _, name, tps, T = d
        return exp + 'type ' + name + ('<' + ', '.join(tps) + '>' if tps else '') + ' = ' + \
            ts_type(T, st) + ';'
    q = st.get('quote', '"')
    if k == 'enum':
        items = []
        for n, v in d[2]:
            nn = q + n + q if st.get('quote_items') else n
            items.append('    ' + nn + (' = ' + lit_ts(v, q) if v is not None else ''))
        return exp + 'enum ' + d[1] + ' {\n' + ',\n'.join(items) + \
            (',' if st.get('enum_trail') else '') + '\n}'
    if k == 'cns':
        items = []
        for n, v, t in d[2]:
            items.append('    ' + ('' if st.get('noexport_items') else 'export ') + 'const ' + n +
                         (': ' + t if t else '') + ' = ' + lit_ts(v, q) + ';')
        return exp + 'namespace ' + d[1] + ' {\n' + '\n'.join(items) + '\n}'
    if k == 'const':
        return exp + 'const ' + d[1] + (': ' + d[2] if d[2] else '') + ' = ' + \
            lit_ts(d[3], q) + ';'
    if k == 'func':
        return exp + 'function ' + d[1] + '(' + ', '.join(ts_param(p, st, '') for p in d[2]) + \
            ')' + (': ' + ts_type(d[3], st) if d[3] is not None else '') + ';'
    raise ValueError(d)


def ts_doc(doc, st=PLAIN):
    return st.get('gap', '\n\n').join(ts_decl(d, st) for d in doc) + '\n'


# ------------------------------------------------------------------ meaning

PY_BASIC = {'string': 'str', 'number': 'float', 'decimal': 'float', 'integer': 'int',
            'uinteger': 'int', 'boolean': 'bool', 'null': 'None', 'void': 'None',
            'undefined': 'None', 'any': 'Any', 'unknown': 'Any', 'object': 'Dict',
            'array': 'List'}


def env_of(doc):
    return {d[1]: d for d in doc}


class Names(set):
    """Names declared in a document, and which of them are type aliases."""
    aliases = frozenset()


def names_of(doc):
    res = Names(d[1] for d in doc)
    res.aliases = frozenset(d[1] for d in doc if d[0] == 'alias')
    return res


def union(parts):
    """Normal form of a union of normal forms."""
    flat = set()
    lits = set()
    for p in parts:
        if p[0] == 'U':
            for q in p[1]:
                if q[0] == 'Lit':
                    lits |= set(q[1])
                else:
                    flat.add(q)
        elif p[0] == 'Lit':
            lits |= set(p[1])
        else:
            flat.add(p)
    if lits:
        flat.add(('Lit', tuple(sorted(lits, key=repr))))
    if len(flat) == 1:
        return next(iter(flat))
    return ('U', tuple(sorted(flat, key=repr)))


def lit_norm(v):
    return ('Lit', ((type(v).__name__, v),))


def unlabelled(T):
    """The unions of tuples a labelled tuple with optional items stands for."""
    ts = tuple(t for _, _, t in T[1])
    n = len(ts)
    while n and T[1][n - 1][1]:
        n -= 1
    alts = tuple(('tup', ts[:i]) for i in range(n, len(ts) + 1))
    return alts[0] if len(alts) == 1 else ('uni', alts)


def sem(T, env, cfg, tvs=(), stack=()):
    """Normal form of the Python meaning of a type term."""
    k = T[0]
    if k == 'b':
        return ('py', PY_BASIC[T[1]])
    if k == 'lit':
        if cfg.get('UseLiteralType'):
            return lit_norm(T[1])
        return ('py', type(T[1]).__name__)
    if k == 'par':
        return sem(T[1], env, cfg, tvs, stack)
    if k == 'ltup':
        return sem(unlabelled(T), env, cfg, tvs, stack)
    if k == 'arr':
        return ('List', sem(T[1], env, cfg, tvs, stack))
    if k == 'vtup':
        return ('Tuple', sem(T[1], env, cfg, tvs, stack), '...')
    if k == 'tup':
        return ('Tuple',) + tuple(sem(t, env, cfg, tvs, stack) for t in T[1])
    if k == 'map':
        return ('Dict', map_key_sem(T[1], env, cfg, tvs, stack), sem(T[2], env, cfg, tvs, stack))
    if k == 'uni':
        return union(sem(t, env, cfg, tvs, stack) for t in T[1])
    if k == 'anon':
        return ('rec', rec_members(T[1], env, cfg, tvs, stack))
    if k == 'app':
        return ('app', T[1]) + tuple(sem(t, env, cfg, tvs, stack) for t in T[2])
    if k == 'fun':
        if any(len(p) > 2 and p[2] for p in T[1]):
            params = '...'
        else:
            params = tuple(('py', 'Any') if p[1] is None else sem(p[1], env, cfg, tvs, stack) for p in T[1])
        return ('Callable', params, sem(T[2], env, cfg, tvs, stack))
    if k == 'ref':
        name = T[1]
        if name in tvs:
            return ('tv', name)
        d = env.get(name)
        if d is None:
            if name == 'undefined':
                return ('py', 'None')
            return ('unres', name)
        if d[0] == 'iface':
            return ('cls', name)
        if d[0] in ('enum', 'cns'):
            return ('enum', name)
        if d[0] == 'alias':
            if name in stack:
                return ('mu', name)
            return sem(d[3], env, cfg, tvs + tuple(d[2]), stack + (name,))
    raise ValueError(T)


def nullable(T, env, cfg):
    """The generated annotation admits None at top level."""
    n = sem(T, env, cfg)
    return n == ('py', 'None') or n == ('py', 'Any') and False or \
        n[0] == 'U' and ('py', 'None') in n[1]


def directly_nullable(T):
    while T[0] == 'par':
        T = T[1]
    return T == ('b', 'null') or T[0] == 'uni' and any(directly_nullable(t) for t in T[1])


def member_norm(m, env, cfg, tvs=(), stack=()):
    """(name, optional, normal form) - form of the annotation without the
    optionality marker, always including None for optional members in legacy
    (Optional) rendering."""
    name, flags, T = m
    n = ('py', 'Any') if T is None else sem(T, env, cfg, tvs, stack)
    opt = 'o' in flags
    if not cfg.get('UseNotRequired'):
        if opt:
            n = union([n, ('py', 'None')])
        elif n == ('py', 'None') or n[0] == 'U' and ('py', 'None') in n[1]:
            # documented: members that admit null may be absent; left open, where
            # this only follows from the definition of an alias
            opt = True if T is not None and directly_nullable(T) else '?'
    return name, opt, n


def rec_members(members, env, cfg, tvs=(), stack=()):
    return tuple(sorted((member_norm(m, env, cfg, tvs, stack) for m in members), key=lambda m: m[0]))


def all_members(name, env):
    """Members of an interface including inherited ones (own ones win)."""
    d = env[name]
    res = {}
    for b in d[3]:
        bn = b[1]
        if bn in env and env[bn][0] == 'iface':
            for m in all_members(bn, env).values():
                res[m[0]] = m
    for m in d[4]:
        res[m[0]] = m
    return res


# ------------------------------------------------------------------ Python side

def pynorm(hint, ns, model_names, stack=(), mod=None, depth=0):
    """Normal form of a Python annotation found in a generated module.

    ``model_names`` are the names declared in the TypeScript document; any other
    TypedDict class is an anonymous interface and is expanded structurally."""
    import typing
    import types as _types
    import enum
    import collections.abc as cabc
    if depth > 60:
        return ('deep',)

    def rec(h):
        return pynorm(h, ns, model_names, stack, mod, depth + 1)

    if hint is None or hint is type(None):
        return ('py', 'None')
    if hint is typing.Any:
        return ('py', 'Any')
    if isinstance(hint, typing.ForwardRef):
        return rec(hint.__forward_arg__)
    if isinstance(hint, str):
        s = hint.strip()
        if s.isidentifier() and s in model_names:
            tgt = ns.get(s, None)
            if tgt is None and s not in ns:
                return ('unres', s)
            if not isinstance(tgt, type):
                if s in stack:
                    return ('mu', s)
                return pynorm(tgt, ns, model_names, stack + (s,), mod, depth + 1)
            return rec(tgt)
        try:
            val = eval(s, dict(ns))
        except NameError as e:
            return ('unres', s)
        return rec(val)
    origin = typing.get_origin(hint)
    args = typing.get_args(hint)
    if origin is typing.Union or isinstance(hint, _types.UnionType):
        return union([rec(a) for a in args])
    if origin is typing.Literal:
        return ('Lit', tuple(sorted({(type(a).__name__, a) for a in args}, key=repr)))
    if getattr(typing, 'NotRequired', None) is not None and origin is typing.NotRequired:
        return ('NotRequired', rec(args[0]))
    if hint in (typing.List, list):
        return ('py', 'List')
    if hint in (typing.Dict, dict):
        return ('py', 'Dict')
    if origin is list:
        return ('List',) + tuple(rec(a) for a in args)
    if origin is dict:
        return ('Dict',) + tuple(rec(a) for a in args)
    if origin is tuple:
        return ('Tuple',) + tuple(rec(a) for a in args)
    if origin is cabc.Callable:
        if args and args[0] is Ellipsis:
            return ('Callable', '...', rec(args[-1]))
        ps = args[0] if isinstance(args[0], list) else args[:-1]
        return ('Callable', tuple(rec(a) for a in ps), rec(args[-1]))
    if isinstance(hint, typing.TypeVar):
        return ('tv', hint.__name__)
    if origin is not None and isinstance(origin, type):
        return ('app', origin.__name__) + tuple(rec(a) for a in args)
    if isinstance(hint, type):
        if hint.__module__ == 'builtins':
            return ('py', hint.__name__)
        name = hint.__qualname__
        if issubclass_safe(hint, enum.Enum) or name in model_names and \
                not is_td(hint) and hint.__dict__.get('__ts_enum__', False):
            return ('enum', name)
        if name in model_names:
            if ns.get(name) is hint and name not in getattr(model_names, 'aliases', ()):
                return ('cls', name) if not is_plain_enum(hint) else ('enum', name)
        if is_td(hint):
            return ('rec', td_members(hint, ns, model_names, stack, mod, depth))
        return ('class', name)
    return ('?', repr(hint))


def issubclass_safe(c, base):
    try:
        return issubclass(c, base)
    except TypeError:
        return False


def is_td(c):
    return isinstance(c, type) and hasattr(c, '__required_keys__')


def is_plain_enum(c):
    return not is_td(c) and not c.__dict__.get('__annotations__') and any(
        isinstance(v, (int, str, float)) and not k.startswith('_')
        for k, v in c.__dict__.items())


def own_hints(c):
    """Annotations incl. inherited ones, as they were written."""
    return dict(c.__dict__.get('__annotations__', {}))


def td_members(c, ns, model_names, stack=(), mod=None, depth=0):
    """Sorted (name, optional, normal form without NotRequired)."""
    res = []
    for k, h in own_hints(c).items():
        n = pynorm(h, ns, model_names, stack, mod, depth + 1)
        if n[0] == 'NotRequired':
            n = n[1]
        res.append((k, k in c.__optional_keys__, n))
    return tuple(sorted(res, key=lambda m: m[0]))


def same(m, p):
    """Model normal form equals Python normal form ('?' is left open)."""
    if m == p:
        return True
    if m[0] != p[0]:
        return False
    if m[0] == 'U':
        if len(m[1]) != len(p[1]):
            return False
        rest = list(p[1])
        for x in sorted(m[1], key=lambda q: '?' in repr(q)):
            for y in rest:
                if same(x, y):
                    rest.remove(y)
                    break
            else:
                return False
        return True
    if m[0] == 'rec':
        return len(m[1]) == len(p[1]) and all(
            a[0] == b[0] and (a[1] == '?' or a[1] == b[1]) and same(a[2], b[2])
            for a, b in zip(sorted(m[1], key=lambda q: q[0]), sorted(p[1], key=lambda q: q[0])))
    if m[0] in ('List', 'Dict', 'Tuple', 'app', 'Callable', 'NotRequired'):
        return len(m) == len(p) and all(
            same(a, b) if isinstance(a, tuple) and a and isinstance(a[0], str) and
            isinstance(b, tuple) and b and isinstance(b[0], str) else
            (len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)))
            if isinstance(a, tuple) and isinstance(b, tuple) else a == b
            for a, b in zip(m[1:], p[1:]))
    return False


# ------------------------------------------------------------------ JSON conformance

def conf(val, T, env, cfg, depth=0):
    """True/False: val (plain JSON data) conforms / does not; None: the
    documented behaviour leaves it open."""
    if depth > 40:
        return None
    k = T[0]
    if k == 'par':
        return conf(val, T[1], env, cfg, depth)
    if k == 'ltup':
        return conf(val, unlabelled(T), env, cfg, depth)
    if k == 'b':
        n = PY_BASIC[T[1]]
        if n == 'Any':
            return True
        if n == 'None':
            return val is None
        if n == 'str':
            return isinstance(val, str)
        if n == 'bool':
            if isinstance(val, bool):
                return True
            return False
        if n in ('int', 'float'):
            if isinstance(val, bool):
                return None          # Python: bool is a subclass of int
            if isinstance(val, int):
                return True
            if isinstance(val, float):
                return True if n == 'float' else (None if val.is_integer() else False)
            return False
        if n == 'Dict':
            return isinstance(val, dict)
        if n == 'List':
            return isinstance(val, list)
        raise ValueError(n)
    if k == 'lit':
        v = T[1]
        if cfg.get('UseLiteralType'):
            if type(val) is type(v):
                return val == v
            if isinstance(val, (bool, int, float)) and isinstance(v, (bool, int, float)):
                return None if val == v else False
            return False
        t = {'str': 'string', 'bool': 'boolean', 'int': 'integer', 'float': 'number'}
        return conf(val, ('b', t[type(v).__name__]), env, cfg, depth)
    if k == 'uni':
        rs = [conf(val, t, env, cfg, depth) for t in T[1]]
        return True if True in rs else (None if None in rs else False)
    if k == 'arr':
        if not isinstance(val, list):
            return False
        return conj(conf(v, T[1], env, cfg, depth + 1) for v in val)
    if k == 'vtup':
        if not isinstance(val, (list, tuple)):
            return False
        return conj(conf(v, T[1], env, cfg, depth + 1) for v in val)
    if k == 'tup':
        if not isinstance(val, (list, tuple)) or len(val) != len(T[1]):
            return False
        return conj(conf(v, t, env, cfg, depth + 1) for v, t in zip(val, T[1]))
    if k == 'map':
        if not isinstance(val, dict):
            return False
        if cfg.get('py'):
            r = conj(conf(key, ('b', T[1]), env, cfg, depth) for key in val)
        else:
            r = True if T[1] == 'string' else (None if val else True)
        return conj([r] + [conf(v, T[2], env, cfg, depth + 1) for v in val.values()])
    if k == 'anon':
        return conf_rec(val, {m[0]: m for m in T[1]}, env, cfg, depth)
    if k == 'fun':
        return None
    if k == 'app':
        # whether type arguments are checked is left open
        return open_true(conf_rec(val, all_members(T[1], env), env, cfg, depth),
                         conf_rec(val, inst_members(T, env), env, cfg, depth))
    if k == 'ref':
        if T[1] not in env:
            return None                 # type parameter
        d = env[T[1]]
        if d[0] == 'iface':
            return conf_rec(val, all_members(T[1], env), env, cfg, depth)
        if d[0] == 'alias':
            return conf(val, d[3], env, cfg, depth + 1)
        if d[0] in ('enum', 'cns'):
            if not cfg.get('UseEnum', True) and d[0] == 'enum':
                return None
            if isinstance(val, (dict, list)) or val is None:
                return False
            vals = enum_values(d)
            for v in vals:
                if type(v) is type(val) and v == val:
                    return True
                if isinstance(v, (bool, int, float)) and isinstance(val, (bool, int, float)) \
                        and v == val:
                    return None
            return False
    raise ValueError(T)


def open_true(loose, strict):
    if loose is False:
        return False
    return True if strict is True else None


def subst(T, m):
    k = T[0]
    if k == 'ref':
        return m.get(T[1], T)
    if k in ('arr', 'par'):
        return (k, subst(T[1], m))
    if k in ('tup', 'uni'):
        return (k, tuple(subst(t, m) for t in T[1]))
    if k == 'ltup':
        return (k, tuple((n, f, subst(t, m)) for n, f, t in T[1]))
    if k == 'map':
        return (k, T[1], subst(T[2], m))
    if k == 'app':
        return (k, T[1], tuple(subst(t, m) for t in T[2]))
    if k == 'anon':
        return (k, tuple((n, f, None if t is None else subst(t, m)) for n, f, t in T[1]))
    return T


def inst_members(T, env):
    d = env[T[1]]
    m = dict(zip(d[2], T[2]))
    return {n: (n, x[1], None if x[2] is None else subst(x[2], m))
            for n, x in all_members(T[1], env).items()}


def enum_values(d):
    if d[0] == 'enum':
        return [i + 1 if v is None else v for i, (_, v) in enumerate(d[2])]
    return [v for _, v, *_ in d[2]]


def conj(rs):
    res = True
    for r in rs:
        if r is False:
            return False
        if r is None:
            res = None
    return res


def conf_rec(val, members, env, cfg, depth):
    if not isinstance(val, dict):
        return False
    res = True
    for k in val:
        if k not in members:
            return False
    for name, m in members.items():
        flags, T = m[1], m[2]
        T = ('b', 'any') if T is None else T
        opt = 'o' in flags
        if name not in val:
            if opt:
                continue
            if not cfg.get('UseNotRequired') and nullable(T, env, cfg):
                res = None if res else res      # documented legacy quirk
                continue
            return False
        if val[name] is None and opt and not cfg.get('UseNotRequired'):
            continue                            # Optional[...] admits None
        r = conf(val[name], T, env, cfg, depth + 1)
        if r is False:
            return False
        if r is None:
            res = None
    return res


# ------------------------------------------------------------------ values

def good_values(T, env, cfg, limit=4, depth=0):
    """A few structurally different conforming values."""
    k = T[0]
    if depth > 5:
        return []
    if k == 'par':
        return good_values(T[1], env, cfg, limit, depth)
    if k == 'ltup':
        return good_values(unlabelled(T), env, cfg, limit, depth)
    if k == 'b':
        return {'str': ['s', ''], 'float': [1.5, 2], 'int': [7, 0], 'bool': [True, False],
                'None': [None], 'Any': [None, {'any': [1]}], 'Dict': [{}, {'k': 1}],
                'List': [[], [1, 'x']]}[PY_BASIC[T[1]]][:limit]
    if k == 'lit':
        return [T[1]]
    if k == 'uni':
        res = []
        for t in T[1]:
            res += good_values(t, env, cfg, 2, depth)
        return dedupe(res)
    if k == 'arr':
        e = good_values(T[1], env, cfg, limit, depth + 1)
        return dedupe([[]] + [[v] for v in e] + ([e[:2]] if len(e) > 1 else []))[:limit + 2]
    if k == 'vtup':
        e = good_values(T[1], env, cfg, limit, depth + 1)
        return dedupe([[]] + [[v] for v in e] + [[e[-1], v] for v in e[:2]] + [[v, v, v] for v in e[:1]])
    if k == 'tup':
        es = [good_values(t, env, cfg, 2, depth + 1) for t in T[1]]
        if not all(es):
            return []
        res = [[e[0] for e in es]]
        for i, e in enumerate(es):
            for v in e[1:]:
                res.append([x[0] for x in es[:i]] + [v] + [x[0] for x in es[i + 1:]])
        return res[:limit]
    if k == 'map':
        e = good_values(T[2], env, cfg, limit, depth + 1)
        k1, k2 = 'k', 'l'
        if cfg.get('py'):
            k1, k2 = dict(integer=(3, 4), number=(1.5, 2), boolean=(True, False)).get(T[1], ('k', 'l'))
        return dedupe([{}] + [{k1: v} for v in e] + ([{k1: e[0], k2: e[1]}] if len(e) > 1 else []))
    if k == 'anon':
        return good_recs({m[0]: m for m in T[1]}, env, cfg, limit, depth)
    if k == 'fun':
        return []
    if k == 'app':
        return good_recs(inst_members(T, env), env, cfg, limit, depth)
    if k == 'ref':
        if T[1] not in env:
            return []
        d = env[T[1]]
        if d[0] == 'iface':
            return good_recs(all_members(T[1], env), env, cfg, limit, depth)
        if d[0] == 'alias':
            return good_values(d[3], env, cfg, limit, depth + 1)
        return list(enum_values(d))
    raise ValueError(T)


def good_recs(members, env, cfg, limit, depth):
    req, opt = {}, {}
    for n, m in members.items():
        T = ('b', 'any') if m[2] is None else m[2]
        vs = good_values(T, env, cfg, limit, depth + 1)
        if 'o' in m[1]:
            opt[n] = vs
        else:
            if not vs:
                return []
            req[n] = vs
    base = {n: vs[0] for n, vs in req.items()}
    res = [base]
    full = {n: (req.get(n) or opt.get(n))[0] for n in members if (req.get(n) or opt.get(n))}
    res.append(full)
    for n, vs in req.items():
        for v in vs[1:]:
            res.append({**base, n: v})
    for n, vs in opt.items():
        for v in vs:
            res.append({**base, n: v})
    return dedupe(res)


def dedupe(vals):
    seen, res = set(), []
    for v in vals:
        k = repr(v)
        if k not in seen:
            seen.add(k)
            res.append(v)
    return res


ATOMS = [None, True, 0, 7, 1.5, 'zz', [], {}, [1.25, None], {'zz': 1}]


def near_misses(v):
    """Scalars that are easily mistaken for v."""
    if isinstance(v, str):
        yield from (v + 'x', v[:-1], v.upper(), ' ' + v)
        try:
            yield int(v)
        except ValueError:
            pass
    elif isinstance(v, bool) or v is None:
        yield from (str(v), json.dumps(v))
    elif isinstance(v, (int, float)):
        yield from (str(v), -v, v + 1, v + 0.5)


def mutations(v, atoms=ATOMS):
    """All single-point mutations of a JSON value."""
    for a in atoms:
        yield a
    yield from near_misses(v)
    if isinstance(v, list):
        for i in range(len(v)):
            yield v[:i] + v[i + 1:]
            for x in mutations(v[i], atoms):
                yield v[:i] + [x] + v[i + 1:]
        for a in atoms:
            yield v + [a]
        if v:
            yield v + [v[0]]
    elif isinstance(v, dict):
        for k in v:
            yield {kk: vv for kk, vv in v.items() if kk != k}
            for x in mutations(v[k], atoms):
                yield {**v, k: x}
            yield {(str(kk) + '_' if kk == k else kk): vv for kk, vv in v.items()}
        for a in atoms[:6]:
            yield {**v, 'extra': a}


def py_variants(v):
    """Values that are not JSON: keys of other types, tuples instead of lists,
    one deviation at a time."""
    if isinstance(v, list):
        yield tuple(v)
        for i, x in enumerate(v):
            for y in py_variants(x):
                yield v[:i] + [y] + v[i + 1:]
    elif isinstance(v, dict):
        for k in v:
            for other in (5, 2.5, None, 'kk', (1,)):
                if type(other) is not type(k):
                    yield {(other if kk == k else kk): vv for kk, vv in v.items()}
            for y in py_variants(v[k]):
                yield {**v, k: y}
        yield {**v, 5: 'x'}


def test_values(T, env, cfg, limit=4):
    """Conforming values and all their single-point mutations, deduplicated."""
    good = good_values(T, env, cfg, limit)
    vals = list(good)
    for g in good:
        vals.extend(mutations(g))
    vals = dedupe(vals)
    if cfg.get('py'):
        for g in good:
            vals.extend(py_variants(g))
    return vals
