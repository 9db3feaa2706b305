"""C06: enums, constant namespaces and constants keep names and values."""
import itertools

import common
import tsmodel as tm
from checks import docsem
from checks.c03 import CONTENTS

VALUES = (None, 0, 1, -3, 42, 1.5, 'a', "it's", 'two words', 'None', '', 'Red')
CVALUES = tuple(v for v in VALUES if v is not None)
NAMES = ('Red', 'green', 'BLUE_1', 'x')
KEYWORDS = (('from', 'in', 'is'), ('None', 'class', 'x'), ('lambda', 'lambda1', '_lambda'), ('name', 'value', 'not'))
ALIKE = KEYWORDS + (('Ab', 'AB', 'ab'), ('a_b', 'ab', 'A_B'), ('x', 'x1', 'x10'), ('i', 'j', 'i_'))    # names that are almost equal
CONFIGS = [dict(UseEnum=e, UseLiteralType=li, RenderAnonymous=a, KeepMultilineComments=k)
           for e in (True, False) for li in (False, True) for a in ('local', 'toplevel')
           for k in (False, True)]
STYLES = [dict(), dict(quote_items=True, enum_trail=True), dict(export=True, noexport_items=True),
          dict(quote="'", quote_items=True)]


COMPOUND = ([], [1], ['a', 'b'], [1, 'a', True, 1.5], [[1, 2], [], ['x']], {}, {'a': 1}, {'a': 'x', 'b': [1, 2], 'c': {'d': False, 'e': {}}},
            [{'a': 1}, {'b': 2}], {'class': 1, 'from': 'x'}, {'type': True, 'x1': -1}, ['a, b', '[', ']', '{', '}'], {'a': 'b: c', 'b': '}'})


def quotable(v, st):
    if isinstance(v, (list, dict)):
        return True
    return not (isinstance(v, str) and (st.get('quote', '"') in v))


def document(spec):
    kind = spec[0]
    if kind == 'enum':
        return (('iface', 'B', (), (), (('e', '', ('ref', 'S')), ('l', 'o', ('arr', ('ref', 'S'))))),
                ('enum', 'S', spec[1]),
                ('iface', 'R', (), (), (('e', '', ('ref', 'S')), ('m', 'o', ('map', 'string', ('ref', 'S'))))))
    if kind == 'cns':
        return (('iface', 'B', (), (), (('e', '', ('ref', 'S')),)),
                ('cns', 'S', spec[1]),
                ('iface', 'R', (), (), (('e', 'o', ('ref', 'S')),)))
    if kind == 'const':
        return (('const', 'S', spec[1], spec[2]), ('iface', 'R', (), (), (('e', 'o', ('b', 'string')),)),
                ('const', 'T', None, spec[2]))
    if kind == 'pair':
        return (('enum', 'S', spec[1]), ('cns', 'T', spec[2]), ('enum', 'U', spec[1]))
    raise ValueError(spec)


def overloaded_text(spec, st):
    """type alias beside a namespace of constants with the same name"""
    items, order, T = spec[1], spec[2], spec[3]
    al = tm.ts_decl(('alias', 'S', (), T), st)
    ns = tm.ts_decl(('cns', 'S', items), st)
    r = tm.ts_decl(('iface', 'R', (), (), (('e', '', ('ref', 'S')),)), st)
    parts = {'an': [al, ns, r], 'na': [ns, al, r], 'ran': [r, al, ns], 'rna': [r, ns, al],
             'arn': [al, r, ns]}[order]
    return '\n\n'.join(parts) + '\n'


REFVALUES = (3, -1, 'a', 1.5, True, [1], {'k': 'x'})


def reference_specs(n):
    """Sequences of constants, each with a literal or an earlier constant as value, at the toplevel or in a namespace."""
    for k in range(1, n + 1):
        for inner in range(0, k + 1):           # the last ones are inside of the namespace
            for values in itertools.product(*(list(REFVALUES[:4 if k > 2 else 7]) + ['@%i' % j for j in range(i)] for i in range(k))):
                if any(isinstance(v, str) and v[0] == '@' for v in values):
                    yield ('refs', values, inner)


def run_refs(case):
    (_, values, inner), ci, si = case
    cfg = CONFIGS[ci]
    names = ['c%i' % i for i in range(len(values))]
    lines, want, first = ['interface R { a: string }'], [], len(values) - inner
    for i, v in enumerate(values):
        if i == first:
            lines.append('export namespace N {')
        ref = isinstance(v, str) and v[0] == '@'
        want.append(want[int(v[1:])] if ref else v)
        text = names[int(v[1:])] if ref else tm.lit_ts(v)
        typ = (': any', '', ': unknown')[(i + si) % 3]
        lines.append(f"{'export ' if (i + si) % 2 else ''}const {names[i]}{typ} = {text};")
    text = '\n'.join(lines) + ('\n}\n' if inner else '\n') + 'interface S { b?: R }\n'
    mod, code, fail = docsem.compile_and_load(text, cfg)
    fails = [fail] if fail else []
    if not fail:
        for i, (n, w) in enumerate(zip(names, want)):
            holder = mod.__dict__ if i < first else getattr(mod.__dict__.get('N'), '__members__', {})
            got = holder.get(n, 'nothing')
            got = getattr(got, 'value', got)
            if repr(got) != repr(w):
                fails.append(f'{n} = {got!r} instead of {w!r}')
        common.unload(mod)
    return dict(fail=fails, outcomes=[common.body(code or '')], shown=text + '\n' + common.body(code or '') if fails else '')


def run_case(case):
    spec, ci, si = case
    if spec[0] == 'refs':
        return run_refs(case)
    cfg, st = CONFIGS[ci], STYLES[si]
    if spec[0] == 'overload':
        text = overloaded_text(spec, st)
        doc = (('cns', 'S', spec[1]), ('iface', 'R', (), (), (('e', '', ('ref', 'S')),)))
    else:
        doc = document(spec)
        text = tm.ts_doc(doc, st)
    env = tm.env_of(doc)
    mod, code, fail = docsem.compile_and_load(text, cfg)
    if fail:
        return dict(fail=[fail], shown=text + '\n' + str(cfg) + common.body(code or ''))
    fails = docsem.check_enums(doc, mod, cfg)
    n = 1
    if not fails:
        from ts2python.json_validation import validate_type
        for name in ('B', 'R'):
            if name not in env or not any(d[0] in ('enum', 'cns') for d in doc):
                continue
            S = mod.S
            d = env['S']
            import enum
            if not (isinstance(S, type) and issubclass(S, enum.Enum)):
                continue
            values = [m.value for m in S.__members__.values()]
            if any(isinstance(v, (list, dict)) for v in values):
                continue        # cannot be used as a type
            key = 'e'
            for v in values + ['zz', 99, None, [], {}, 'Red', 'green', 7.25]:
                good = any(type(v) is type(x) and v == x for x in values)
                fuzzy = any(v == x for x in values) and not good
                n += 1
                data = {key: v}
                opt = 'o' in dict((m[0], m[1]) for m in env[name][4])[key]
                if v is None and opt:
                    continue
                try:
                    validate_type(data, mod.__dict__[name])
                    got = True
                except (TypeError, ValueError):
                    got = False
                except Exception as e:
                    got = common.describe_exc(e)
                if got is not good and not fuzzy:
                    fails.append(f'{name}: enumeration value {v!r}: {got} instead of {good}')
    common.unload(mod)
    return dict(fail=fails, n=n, outcomes=[common.body(code)],
                shown=(text + '\n' + str(cfg) + '\n' + common.body(code)) if fails else '')


def type_name(v):
    return 'string' if isinstance(v, str) else 'number'


def item_lists(n, values, names=NAMES):
    for k in range(1, n + 1):
        for vs in itertools.product(values, repeat=k):
            yield tuple(zip(names, vs))


def main():
    run = common.Run('C06')
    common.prepare()
    specs = []
    n = 3
    for items in item_lists(n, VALUES):
        specs.append(('enum', items))
    for names in ALIKE:
        for perm in itertools.permutations(names):
            for items in item_lists(3, (None, 3, 'a'), perm):
                if len(items) > 1:
                    specs.append(('enum', items))
                    if None not in [v for _, v in items]:
                        specs.append(('cns', tuple((i, v, None) for i, v in items)))
    for items in item_lists(2, CVALUES):
        for t in ((None,), ('number',), ('string',)) if len(items) < 2 or common.THOROUGH else ((None,),):
            specs.append(('cns', tuple((i, v, t[0]) for i, v in items)))
    for v in CVALUES + (True, False):
        for t in (None, 'number', 'string', 'any', 'boolean'):
            specs.append(('const', t, v))
    for items in item_lists(1, VALUES):
        for citems in item_lists(1, CVALUES):
            specs.append(('pair', items, tuple((i, v, None) for i, v in citems)))
    types = (('b', 'string'), ('uni', (('lit', 'a'), ('lit', 'b'))), ('b', 'integer'), ('uni', (('b', 'string'), ('b', 'null'))))
    for items in item_lists(2, ('a', 'b', 1, 2)):
        for order in ('an', 'na', 'ran', 'rna', 'arn'):
            for T in types:
                specs.append(('overload', tuple((i, v, None) for i, v in items), order, T))
    contents = [v for v in CONTENTS if not isinstance(v, bool)]
    for v in contents:
        w = 'plain' if v != 'plain' else 'other'
        specs += [('enum', (('Red', v),)), ('enum', (('Red', w), ('green', v))), ('enum', (('Red', v), ('green', w), ('x', 7 if v != 7 else 8))),
                  ('cns', (('Red', v, None), ('green', w, None))), ('cns', (('Red', w, 'string'), ('green', v, type_name(v)))),
                  ('const', None, v), ('const', type_name(v), v)]
    for v in COMPOUND:
        specs += [('const', t, v) for t in (None, 'any', 'object')]
        specs += [('const', None, [v]), ('const', None, {'k': v, 'l': 1})]
        specs += [('cns', (('Red', v, None),)), ('cns', (('Red', 1, None), ('green', v, None), ('x', 'x', None)))]
    # long lists
    for k in list(range(4, 13)) + [16, 17, 33, 65, 101]:
        its = [[(f'm{i}', v(i)) for i in range(k)] for v in
               (lambda i: None, lambda i: i + 1, lambda i: f's{i}', lambda i: i if i % 2 else f's{i}', lambda i: -i * 5,
                lambda i: None if i % 3 else f's{i}')]
        specs += [('enum', tuple(x)) for x in its]
        specs += [('cns', tuple((i, v, None) for i, v in x)) for x in its[1:5]]
    specs += list(reference_specs(4 if common.THOROUGH else 3))
    cases = []
    nc, ns = len(CONFIGS), len(STYLES)
    for i, s in enumerate(specs):
        k = nc if common.THOROUGH else 2
        for j in range(k):
            for m in range(ns if common.THOROUGH else 1):
                si = (i + j * 3 + m + common.SEED) % ns
                vals = [] if s[0] == 'refs' else [x[1] for x in s[1]] if s[0] in ('enum', 'cns', 'overload') else \
                    [s[2]] if s[0] == 'const' else [x[1] for x in s[1]] + [x[1] for x in s[2]]
                while not all(quotable(v, STYLES[si]) for v in vals):
                    si = (si + 1) % ns
                cases.append((s, (i * 7 + j * 5 + common.SEED) % nc, si))
    run.states, run.transitions = len(specs), len(specs)
    common.execute(run, cases, run_case)
    run.extra['modules'] = len(cases)
    for c in (cases[1], cases[len(cases) // 2], cases[-1]):
        run.sample(repr(c))
    run.rule = ('states: item lists of up to 3 items over %d values for enums, items with almost equal names, long lists, up to 2 for constant namespaces and '
                'aliases beside namespaces, single constants and pairs, values of various contents, lists and objects, constants that refer to constants; each in several notations and option sets' % len(VALUES))
    return run
