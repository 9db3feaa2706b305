"""Size ladders: values and types of growing size with at most one fault, at every place.

ladder_values() yields (label, python type source, value expression or object, expected verdict)."""

SMALL = tuple(range(1, 13))
LARGE = (16, 17, 33, 65, 129, 257)
DEPTHS = tuple(range(1, 13)) + (17, 33, 50)


def places(n):
    return range(n) if n <= 17 else sorted({0, 1, 2, 9, 10, 31, 32, 63, 64, n // 2, n - 2, n - 1} & set(range(n)))


def swap(seq, k, item):
    res = list(seq)
    res[k] = item
    return res


def nest_list(n, core):
    for _ in range(n):
        core = [core]
    return core


def chain(n, k=None):
    """A linked list of n nodes, the k-th of which is faulty."""
    v = None
    for i in reversed(range(n)):
        v = {'x': 'w' if i == k else i, 'next': v}
    return v


KINDS = ('list', 'list of classes', 'nested lists', 'map', 'map keys', 'nested maps', 'tuple', 'variadic tuple', 'union', 'union of classes',
         'literal', 'enum', 'string enum', 'required', 'optional', 'mixed', 'inheritance', 'recursion', 'nested classes',
         'arguments', 'rest', 'keywords')


def case(kind, n):
    """-> (source of the module, name of the type or function, [(label, value, expected)])"""
    head, T = '', None
    vals = []
    if kind == 'list':
        T = 'List[int]'
        good = list(range(n))
        vals = [('no fault', good, True)] + [(f'fault at {k}', swap(good, k, 'w'), False) for k in places(n)]
    elif kind == 'list of classes':
        head = "class P(TypedDict):\n    x: int\n    y: Optional[str]\n"
        T = "List[P]"
        good = [{'x': i} for i in range(n)]
        vals = [('no fault', good, True)]
        for k in places(n):
            vals += [(f'missing key at {k}', swap(good, k, {'y': 's'}), False), (f'wrong key at {k}', swap(good, k, {'x': 1, 'z': 1}), False),
                     (f'wrong type at {k}', swap(good, k, {'x': 1, 'y': 2}), False), (f'none at {k}', swap(good, k, None), False)]
    elif kind == 'nested lists':
        T = 'List[' * n + 'int' + ']' * n
        vals = [('no fault', nest_list(n, 1), True), ('wrong item', nest_list(n, 'w'), False), ('too deep', nest_list(n + 1, 1), False),
                ('too flat', nest_list(n - 1, 1), False), ('empty', nest_list(n, []) if False else nest_list(n - 1, []), True)]
    elif kind in ('map', 'map keys'):
        T = 'Dict[str, int]'
        good = {f'k{i}': i for i in range(n)}
        vals = [('no fault', good, True)]
        for k in places(n):
            if kind == 'map':
                vals.append((f'fault at {k}', dict(good, **{f'k{k}': 'w'}), False))
            else:
                vals.append((f'key {k} is no string', {(i if i == k else f'k{i}'): i for i in range(n)}, False))
    elif kind == 'nested maps':
        T = 'Dict[str, ' * n + 'int' + ']' * n

        def nest(m, core):
            for _ in range(m):
                core = {'k': core}
            return core
        vals = [('no fault', nest(n, 1), True), ('wrong item', nest(n, 'w'), False), ('too deep', nest(n + 1, 1), False),
                ('too flat', nest(n - 1, 1), False)]
    elif kind == 'tuple':
        T = 'Tuple[' + ', '.join('int' if i % 2 else 'str' for i in range(n)) + ']'
        good = [i if i % 2 else f's{i}' for i in range(n)]
        vals = [('no fault', good, True), ('as tuple', tuple(good), True), ('too short', good[:-1], False), ('too long', good + [1], False),
                ('too long', good + ['s'], False), ('twice', good * 2, False)]
        vals += [(f'fault at {k}', swap(good, k, None), False) for k in places(n)]
    elif kind == 'variadic tuple':
        T = 'Tuple[str, ...]'
        good = [f's{i}' for i in range(n)]
        vals = [('no fault', good, True), ('as tuple', tuple(good), True), ('no items', (), True)]
        vals += [(f'fault at {k}', swap(good, k, 1), False) for k in places(n)]
    elif kind == 'union':
        T = 'Union[' + ', '.join('Tuple[' + ', '.join(['int'] * (i + 1)) + ']' for i in range(n)) + ']'
        for k in places(n):
            vals += [(f'alternative {k}', [1] * (k + 1), True), (f'alternative {k} with fault', [1] * k + ['w'], False)]
        vals += [('no alternative', [1] * (n + 1), False), ('no alternative', [], False), ('no alternative', None, False)]
    elif kind == 'union of classes':
        head = ''.join(f"class P{i}(TypedDict):\n    x{i}: int\n" for i in range(n))
        T = 'Union[' + ', '.join(f'P{i}' for i in range(n)) + ']'
        for k in places(n):
            vals += [(f'alternative {k}', {f'x{k}': 1}, True), (f'alternative {k} with fault', {f'x{k}': 'w'}, False),
                     (f'alternative {k} with fault', {f'x{k}': 1, 'z': 1}, False)]
        vals += [('no alternative', {f'x{n}': 1}, False), ('no alternative', {}, False)]
    elif kind == 'literal':
        T = 'Literal[' + ', '.join(repr(f's{i}') if i % 2 else str(i) for i in range(n)) + ']'
        for k in places(n):
            vals += [(f'literal {k}', f's{k}' if k % 2 else k, True), (f'opposite of literal {k}', k if k % 2 else f's{k}', False)]
        vals += [('no literal', f's{n}', False), ('no literal', n, False), ('no literal', None, False), ('no literal', 's', False)]
    elif kind in ('enum', 'string enum'):
        s = kind == 'string enum'
        head = f'class E({"Enum" if s else "IntEnum"}):\n' + ''.join(
            f'    m{i} = ' + (repr(f'v{i}') if s else str(i * 3)) + '\n' for i in range(n))
        T = 'E'
        for k in places(n):
            vals += [(f'value {k}', f'v{k}' if s else k * 3, True), (f'name {k}', f'm{k}', False),
                     (f'no value {k}', f'V{k}' if s else k * 3 + 1, False)]
        vals += [('no value', f'v{n}' if s else n * 3, False)]
    elif kind in ('required', 'optional', 'mixed'):
        opt = [kind == 'optional' or kind == 'mixed' and i % 2 == 1 for i in range(n)]
        T = 'P'
        head = 'class P(TypedDict):\n' + ''.join(f'    f{i}: {"Optional[int]" if o else "int"}\n' for i, o in enumerate(opt))
        good = {f'f{i}': i for i in range(n)}
        vals = [('no fault', good, True), ('no fault, reversed', dict(reversed(list(good.items()))), True),
                ('superfluous', dict(good, z=1), False), ('superfluous first', dict(z=1, **good), False)]
        for k in places(n):
            vals += [(f'lacks {k}', {f: v for f, v in good.items() if f != f'f{k}'}, opt[k]),
                     (f'fault at {k}', dict(good, **{f'f{k}': 'w'}), False),
                     (f'only {k}', {f'f{k}': 1}, all(o or i == k for i, o in enumerate(opt))),
                     (f'renamed {k}', {(f + '_' if f == f'f{k}' else f): v for f, v in good.items()}, False)]
    elif kind == 'inheritance':
        T = f'P{n - 1}'
        head = ''.join(f'class P{i}({f"P{i - 1}, " if i else ""}TypedDict):\n    f{i}: {"Optional[int]" if i % 3 == 1 else "int"}\n'
                       for i in range(n))
        good = {f'f{i}': i for i in range(n)}
        vals = [('no fault', good, True), ('superfluous', dict(good, **{f'f{n}': 1}), False)]
        for k in places(n):
            vals += [(f'lacks {k}', {f: v for f, v in good.items() if f != f'f{k}'}, k % 3 == 1),
                     (f'fault at {k}', dict(good, **{f'f{k}': 'w'}), False)]
    elif kind == 'recursion':
        T = 'P'
        head = "class P(TypedDict):\n    x: int\n    next: Union['P', None]\n"
        vals = [('no fault', chain(n), True)] + [(f'fault at {k}', chain(n, k), False) for k in places(n)]
    elif kind == 'nested classes':
        T = f'P{n - 1}'
        head = 'class P0(TypedDict):\n    x: int\n' + ''.join(
            f"class P{i}(TypedDict):\n    p: P{i - 1}\n    l: Optional[List['P{i - 1}']]\n" for i in range(1, n))

        def obj(m, fault=None, way='p'):
            if m == 0:
                return {'x': 'w'} if fault == 0 else {'x': 1}
            res = {'p': obj(m - 1, fault if way == 'p' else None)}
            if way == 'l':
                res['l'] = [{'x': 1} if m == 1 else obj(m - 1), obj(m - 1, fault, 'l')] if m < 6 else [obj(m - 1, fault, 'l')]
            if fault == m:
                res['z'] = 1
            return res
        vals = [('no fault', obj(n - 1), True)] + [(f'fault at depth {k}', obj(n - 1, k), False) for k in places(n)]
        if n < 8:
            vals += [('no fault (lists)', obj(n - 1, None, 'l'), True)] + \
                [(f'fault at depth {k} (lists)', obj(n - 1, k, 'l'), False) for k in places(n)]
    elif kind == 'arguments':
        head = '@type_check\ndef f(' + ', '.join(f'a{i}: int' for i in range(n)) + ') -> int:\n    return 1\n'
        good = {f'a{i}': i for i in range(n)}
        vals = []
        for k in [None] + list(places(n)):
            kw = good if k is None else dict(good, **{f'a{k}': 'w'})
            label = 'no fault' if k is None else f'fault at {k}'
            vals += [(label, ((), kw), k is None), (label, (tuple(kw.values()), {}), k is None),
                     (label, (tuple(kw.values())[:n // 2], dict(list(kw.items())[n // 2:])), k is None)]
    elif kind == 'rest':
        head = '@type_check\ndef f(*a: int) -> int:\n    return 1\n'
        good = list(range(n))
        vals = [('no fault', (tuple(good), {}), True)] + [(f'fault at {k}', (tuple(swap(good, k, 'w')), {}), False) for k in places(n)]
    elif kind == 'keywords':
        head = '@type_check\ndef f(**a: int) -> int:\n    return 1\n'
        good = {f'a{i}': i for i in range(n)}
        vals = [('no fault', ((), good), True)] + [(f'fault at {k}', ((), dict(good, **{f'a{k}': 'w'})), False) for k in places(n)]
    return head, T, vals


def sizes(kind):
    if kind in ('nested lists', 'nested maps', 'recursion'):
        return DEPTHS
    if kind == 'nested classes':
        return DEPTHS[:-1]
    if kind in ('union', 'arguments'):
        return SMALL + LARGE[:3]
    return SMALL + LARGE
