"""C03: TypeScript type expressions keep their meaning in Python."""
import itertools

import common
import spaces
import tsmodel as tm
from checks import docsem


KEYS = ('string', 'number', 'integer', 'boolean', ('o', 'string'), ('o', 'number'), ('ro', 'string'),
        ('in', 'E'), ('in', 'F'), ('in', 'L'), ('in', 'string'), ('in', 'Z'))


def more_terms():
    """Maps with all notations of keys, and function types."""
    small = spaces.terms(1)[0]
    for t in small:
        for k in KEYS:
            yield ('map', k, t)
            if t in spaces.LEAVES[:9]:
                m = ('map', k, t)
                yield from (('arr', m), ('uni', (m, spaces.Z)), ('tup', (spaces.STR, m)), ('map', 'string', m),
                            ('anon', (('p', 'o', m), ('q', '', t))))
    S, A, Z = spaces.STR, spaces.A, spaces.Z
    for t in small:
        funs = [('fun', (('a', t),), S), ('fun', (), t), ('fun', (('a', S), ('b', t)), A),
                ('fun', (('a', t, 'o'),), S), ('fun', (('b', A), ('a', t, 'o')), Z)]
        yield from funs
        if t in spaces.LEAVES:
            funs += [('fun', (('a', S), ('r', ('arr', t), '*')), t), ('fun', (('r', ('arr', t), '*'),), t),
                     ('fun', (('a', None), ('b', t)), t), ('fun', (('a', t, 'o'), ('b', S, 'o')), S)]
            yield from funs[5:]
            for f in funs:
                yield from (('arr', f), ('uni', (f, t)) if t[0] != 'uni' else f, ('uni', (spaces.NULL, f)),
                            ('map', 'string', f), ('tup', (t, f)), ('anon', (('p', '', f), ('q', 'o', f))),
                            ('fun', (('f', f), ('x', t)), f), ('fun', (), ('arr', f)))


CONTENTS = ('*', '**', 'x = None', ' = None', 'x: y', 'x : int', '#no', 'x # y', 'a | b', '|', 'a, b', ',', '[a]', 'b] | c', 'b]|c', 'b], None', 'b] | None', 'a) | b', '[ | c', '[, c', 'List[', ']', '(', ')',
            '{', '}', 'class X(Y):', 'class X', 'def f(self):', 'pass', 'None', 'Optional[', 'Union[str', 'Literal["', 'TypedDict(',
            "it's", "'", 'say "x"', '"', '//x', '/* x */', '/*', '*/', ' ', '  x', 'x ', '', 'ü', 'A', 'Z', 'A | Z', 'S', 'E.one', '...',
            'http://x.y/z', ';', '?', 'a?: b', '=>', 'export interface X {}', 'string', 'true', '3', '1.5', '-1', '@x', '%s', '{0}', '$',
            0, 1, -1, 10, 42, 100, 2147483647, -2147483648, 9007199254740991, 0.5, -0.5, 1e30, 1.5e-07, False, True)


def literal_terms():
    """Literals with all kinds of contents in different surroundings."""
    S, A, Z, N = spaces.STR, spaces.A, spaces.Z, spaces.NULL
    for v in CONTENTS:
        t = ('lit', v)
        y = ('lit', 'y')
        yield from (t, ('uni', (t, y)), ('uni', (y, t)), ('uni', (t, N)), ('uni', (Z, t)), ('uni', (t, A, y)), ('uni', (t, spaces.INT)),
                    ('arr', ('uni', (t, y))), ('arr', t), ('tup', (t, Z)), ('tup', (y, t)), ('map', 'string', t), ('map', 'string', ('uni', (t, N))),
                    ('fun', (('a', t),), S), ('fun', (('a', Z), ('b', t)), t), ('fun', (('a', ('uni', (y, t))), ('b', S)), N),
                    ('anon', (('p', '', t), ('q', 'o', t))), ('anon', (('p', '', Z), ('q', 'o', ('uni', (t, Z))))),
                    ('uni', (('arr', t), t)), ('uni', (('anon', (('p', '', t),)), t)), ('arr', ('anon', (('p', '', t),))))


def runs():
    """Unions in which runs of literals alternate with runs of other types."""
    S, I, N = spaces.STR, spaces.INT, spaces.NULL
    lits = ([('lit', v) for v in ('x', 'y', 'z', 'A', 'w')], [('lit', v) for v in (1, 'one', True, 2, 'None')],
            [('lit', v) for v in ('a | b', 'c, d', 3, 'Z', False)])
    other = ((spaces.A, spaces.Z, N, ('arr', spaces.Z), ('map', 'string', I)), (S, ('arr', S), spaces.E, ('tup', (('lit', 'q'), I)), N),
             (N, ('anon', (('p', '', spaces.Z),)), ('arr', ('par', ('uni', (spaces.A, ('lit', 'x'))))), I, spaces.Z))
    for n in range(2, 6):
        for pattern in itertools.product((0, 1), repeat=n):
            for l, o in zip(lits, other):
                its = iter(o), iter(l)
                yield ('uni', tuple(next(its[p]) for p in pattern))


SIZES = tuple(range(4, 13)) + (16, 17, 33, 65)


def ladder_terms():
    """Type expressions of growing width or depth."""
    S, I, A, Z, N = spaces.STR, spaces.INT, spaces.A, spaces.Z, spaces.NULL
    leaves = (S, I, A, Z, ('b', 'boolean'), ('arr', Z), ('map', 'string', A))
    for n in SIZES:
        its = [leaves[(i * 3 + n) % len(leaves)] for i in range(n)]
        yield ('uni', tuple(('lit', f's{i}') for i in range(n)))
        yield ('uni', tuple(('lit', i * 7) for i in range(n)))
        yield ('uni', tuple(('tup', (it,) * (i + 1)) for i, it in enumerate(its[:17])))
        yield ('uni', tuple(('anon', ((f'p{i}', '', it),)) for i, it in enumerate(its[:17])))
        yield ('uni', tuple(('lit', f's{i}') if i % 3 else ('tup', (it,) * (i + 1)) for i, it in enumerate(its[:17])) + (N,))
        yield ('tup', tuple(its))
        yield ('anon', tuple((f'p{i}', 'o' if i % 3 == 1 else '', it) for i, it in enumerate(its)))
        yield ('anon', tuple((f'p{i}', '', ('anon', ((f'q{i}', '', it),))) for i, it in enumerate(its)))
        yield ('fun', tuple((f'p{i}', it) for i, it in enumerate(its)), S)
        yield ('fun', tuple((f'p{i}', it, 'o') if i > n - 3 else (f'p{i}', it) for i, it in enumerate(its)), Z)
    for n in range(2, 9):
        for core in (Z, I, ('lit', 'x')):
            for make in (lambda t: ('arr', t), lambda t: ('map', 'string', t), lambda t: ('tup', (t, I)), lambda t: ('uni', (('arr', t), N)),
                         lambda t: ('anon', (('p', '', t), ('q', 'o', S))), lambda t: ('fun', (('f', t),), I), lambda t: ('fun', (), t),
                         lambda t: ('arr', ('uni', (t, I) if t != I else (t, S))), lambda t: ('anon', (('p', 'o', ('arr', t)),))):
                t = core
                for _ in range(n):
                    t = make(t)
                yield t


def run_case(case):
    t, pos, cfgi = case[:3]
    doc = spaces.subject_doc(t, pos)
    cfg = dict(spaces.CONFIGS[cfgi])
    text = tm.ts_doc(doc, dict(quote=case[3])) if len(case) > 3 else tm.ts_doc(doc)
    mod, code, fail = docsem.compile_and_load(text, cfg)
    if fail:
        return dict(fail=[fail], shown=text + '\n' + str(cfg) + common.body(code or ''))
    fails = docsem.check_interfaces(doc, mod, cfg) + docsem.check_aliases(doc, mod, cfg)
    common.unload(mod)
    n = tm.sem(t, tm.env_of(doc), cfg)
    return dict(fail=fails, outcomes=[repr(n)],
                shown=(tm.ts_doc(doc[3:-3]) + '\n' + str(cfg) + '\n' + common.body(code))
                if fails else '')


def main():
    run = common.Run('C03')
    common.prepare()
    depth = 3 if common.THOROUGH else 2
    full, tr, complete = spaces.terms(depth, max_states=60000 if common.THOROUGH else None)
    run.states, run.transitions = len(full), tr
    run.exhaustive = complete
    small = spaces.terms(1)[0]
    small_set = set(small)
    nc = len(spaces.CONFIGS)
    cases = []
    for t in small:
        for pos in spaces.POSITIONS:
            for c in range(nc):
                if common.THOROUGH or (c + spaces.POSITIONS.index(pos) + spaces.size(t)
                                       + len(cases) // 7 + common.SEED) % 4 == 0:
                    cases.append((t, pos, c))
    for i, t in enumerate(full):
        if t in small_set:
            continue
        if common.THOROUGH:
            sel = [(pos, (i * 7 + j * 5 + common.SEED) % nc) for j, pos in enumerate(spaces.POSITIONS)]
        else:
            sel = [(spaces.POSITIONS[(i + j) % 5], (i // 5 * 7 + j * 11 + common.SEED) % nc) for j in range(1)]
        cases.extend((t, pos, c) for pos, c in sel)
    # unions with repeated alternatives, and literals spelled like the name of a type
    leaves = spaces.LEAVES + (('lit', 'A'), ('lit', 'Z'), ('arr', spaces.A), ('tup', (('lit', 'x'),)))
    lit_cfgs = [i for i, c in enumerate(spaces.CONFIGS) if dict(c).get('UseLiteralType')]
    rep = [('uni', u) for a in leaves for b in leaves for c in (spaces.A, spaces.STR, ('lit', 'A'), ('lit', 'x'))
           for u in ((a, b, a), (a, a, b), (a, b, b, c), (c, a, b, a)) if a != b]
    for i, t in enumerate(rep):
        if common.THOROUGH or i % 3 == common.SEED % 3:
            cases.append((t, spaces.POSITIONS[i // 3 % 5], lit_cfgs[(i // 7 + common.SEED) % len(lit_cfgs)], "'"))
            if i % 4 == 0:
                cases.append((t, spaces.POSITIONS[i // 5 % 5], (i // 3 + common.SEED) % nc, '"'))
    more = list(dict.fromkeys(t for t in more_terms() if spaces.valid(t)))
    for i, t in enumerate(more):
        for j in range(5 if common.THOROUGH else 1):
            cases.append((t, spaces.POSITIONS[(i + j) % 5], (i // 5 * 7 + j * 11 + common.SEED) % nc))
    # literals: the contents must not be confused with code
    lits = list(literal_terms())
    for i, t in enumerate(lits):
        for j in range(8 if common.THOROUGH else 1):
            k = i + i // len(spaces.POSITIONS) + j + common.SEED
            cases.append((t, spaces.POSITIONS[k % 5], lit_cfgs[(i // 7 + j * 5 + common.SEED) % len(lit_cfgs)], '"\''[k // 3 % 2]))
            if common.THOROUGH or i % 4 == j:
                cases.append((t, spaces.POSITIONS[k % 5], (i // 5 + j * 7) % nc, '\'"'[k // 3 % 2]))
    for i, t in enumerate(lits):
        if i % 21 in (0, 1, 3):
            for p, pos in enumerate(spaces.POSITIONS):
                for j, c in enumerate(lit_cfgs):
                    if common.THOROUGH or (i + p + j) % 3 == common.SEED % 3:
                        cases.append((t, pos, c, '"\''[(i + j) // 3 % 2]))
    alternating = list(runs())
    for i, t in enumerate(alternating):
        for j, c in enumerate(lit_cfgs + lit_cfgs[:1]):
            if common.THOROUGH or (i + j) % 4 == common.SEED % 4:
                cases.append((t, spaces.POSITIONS[(i // 3 + j) % 5], c, '"\''[(i + j) // 4 % 2]))
    ladder = [t for t in dict.fromkeys(ladder_terms()) if spaces.valid(t)]
    for i, t in enumerate(ladder):
        for j in range(8 if common.THOROUGH else 2):
            cases.append((t, spaces.POSITIONS[(i + j) % 5], (i // 5 * 7 + j * 11 + common.SEED) % nc))
    run.states += len(set(rep)) + len(more) + len(lits) + len(alternating) + len(ladder)
    common.execute(run, cases, run_case)
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(type=tm.ts_type(c[0]), position=c[1], config=spaces.CONFIGS[c[2]]))
    run.rule = ('states: type terms up to derivation depth %d, maps with all notations of keys, function types, literals of %d contents, terms of growing width and depth; every term of depth <= 1 in every '
                'position under all %d option sets, deeper terms under a rotating selection' % (depth, len(CONTENTS), nc))
    return run
