"""C17: validation accepts a value exactly if it conforms to the type."""
import copy

import common
import ladders
import pyfix
import spaces
import tsmodel as tm

POS = ('field', 'optional', 'inherited', 'toplevel', 'item', 'alias', 'foreign')
# a class derived from a class of another module; here the names that the other
# module uses mean something else
FOREIGN = '''%s%s
from %s import B
class A(TypedDict):
    foreign: int
class E(Enum):
    foreign = 'foreign'
L = M = Tuple[int, int, int, int]
class F(Enum):
    foreign = 'foreign'
class S(B, TypedDict):
    n: int
    k: %s
    u: %s
class Z(TypedDict):
    foreign: str
'''


def make_doc(t, pos):
    if pos in ('toplevel', 'item'):
        # no forward references outside of a class: all declarations first
        return spaces.CTX_BEFORE + spaces.CTX_AFTER + (('alias', 'T', (), t),)
    if pos == 'field':
        return spaces.wrap([('iface', 'S', (), (), (('m', '', t), ('n', 'o', tm_int)))])
    if pos == 'optional':
        return spaces.wrap([('iface', 'S', (), (), (('m', 'o', t), ('n', '', tm_int)))])
    if pos == 'inherited':
        return spaces.wrap([('iface', 'B', (), (), (('m', '', t),)),
                            ('iface', 'S', (), (('ref', 'B'),), (('n', '', tm_int),))])
    if pos == 'foreign':
        return spaces.wrap([('iface', 'B', (), (), (('m', '', t), ('k', '', t))),
                            ('iface', 'Foreign', (), (), (('foreign', '', ('b', 'string')),)),
                            ('iface', 'S', (), (('ref', 'B'),), (('n', '', tm_int), ('k', '', ('ref', 'Foreign')),
                                                                 ('u', 'o', ('arr', ('ref', 'Foreign')))))])
    if pos == 'alias':
        return spaces.wrap([('alias', 'T', (), t),
                            ('iface', 'S', (), (), (('m', '', ('arr', ('ref', 'T'))),
                                                    ('n', 'o', tm_int)))])
    raise ValueError(pos)


tm_int = ('b', 'integer')
LADDER_HEADER = '''from typing import *
from enum import Enum, IntEnum
%s
from ts2python.json_validation import type_check
'''
TYPED_DICT = ('from ts2python.typeddict_shim import TypedDict', 'from ts2python.typeddict_shim import *\nfrom typing import Optional',
              'from typing_extensions import TypedDict')


def run_ladder(kind, n, style):
    """Values of size n with at most one fault."""
    from ts2python.json_validation import validate_type
    head, typ, vals = ladders.case(kind, n)
    text = LADDER_HEADER % TYPED_DICT[style] + head + (f'T = {typ}\n' if typ else '')
    mod = common.load_module(text)
    fails, outcomes, m = [], set(), 0
    for again in range(2):      # nothing may depend on earlier validations
        for label, v, exp in vals:
            m += 1
            before = copy.deepcopy(v)
            try:
                if typ:
                    validate_type(v, mod.T)
                else:
                    mod.f(*v[0], **v[1])
                got = True
            except (TypeError, ValueError):
                got = False
            except Exception as e:
                got = common.describe_exc(e)
            outcomes.add(f'{kind} {n} {label} {got}')
            if got != exp:
                fails.append(f'{kind} of size {n}, {label}{" (second time)" if again else ""}: ' +
                             (got if isinstance(got, str) else 'accepted' if got else 'rejected'))
            if v != before:
                fails.append(f'{kind} of size {n}, {label}: the value has been changed')
    common.unload(mod)
    return dict(fail=fails[:3], n=m, outcomes=list(outcomes), shown=text[-1500:] if fails else '')


def run_case(case):
    if case[0] == 'ladder':
        return run_ladder(*case[1:])
    t, pos, style, flavour = case
    from ts2python.json_validation import validate_type, validate_uniform_sequence
    if pos == 'foreign' and flavour == 'typing':
        return dict(n=0)        # get_type_hints() of Python itself fails
    doc = make_doc(t, pos)
    env = tm.env_of(doc)
    cfg = dict(pyfix.cfg_of(flavour), py=True)
    saved = pyfix.FORWARD
    if pos in ('toplevel', 'item'):
        pyfix.FORWARD = set()
    try:
        text = pyfix.module_text([d for d in doc if pos != 'foreign' or d[1] not in ('S', 'Foreign')], style, flavour)
    finally:
        pyfix.FORWARD = saved
    try:
        mod = common.load_module(text)
    except Exception as e:
        if isinstance(e, TypeError) and 'unsupported operand type' in str(e):
            return dict(n=0)        # spelling not expressible (string | None ...)
        return dict(fail=[f'type module cannot be imported: {e}'], shown=text)
    if pos == 'foreign':
        other = mod
        mod = common.load_module(FOREIGN % (pyfix.COMMON, pyfix.HEADER[flavour], other.__name__, "'Z'",
                                            "'list[Z] | None'" if style in ('|', 'builtin') else "Optional[List['Z']]"))
    fails, outcomes, n = [], set(), 0
    if pos in ('toplevel', 'item'):
        typ, term = mod.T, ('ref', 'T')
        if isinstance(typ, str):
            return dict(n=0)
    else:
        typ, term = mod.S, ('ref', 'S')
    if pos == 'item':
        term = ('arr', term)
    for v in tm.test_values(term, env, cfg, limit=4 if common.THOROUGH or spaces.size(t) < 4 else 2):
        exp = tm.conf(v, term, env, cfg)
        n += 1
        try:
            if pos == 'item':
                if not isinstance(v, list):
                    continue
                validate_uniform_sequence(v, typ)
            else:
                validate_type(v, typ)
            got = True
        except (TypeError, ValueError):
            got = False
        except Exception as e:
            got = common.describe_exc(e)
        outcomes.add(f'{exp}/{got if isinstance(got, bool) else "exc"}')
        if not isinstance(got, bool):
            fails.append(f'value {v!r}: {got}')
        elif exp is not None and got != exp:
            fails.append(f'value {v!r} is {"accepted" if got else "rejected"}, '
                         f'but does {"" if exp else "not "}conform')
        if len(fails) > 2:
            break
    common.unload(mod)
    if pos == 'foreign':
        common.unload(other)
    return dict(fail=fails, n=n, outcomes=[repr(tm.sem(t, env, cfg)) + o for o in outcomes],
                shown=text if fails else '')


def main():
    run = common.Run('C17')
    common.prepare()
    depth = 3 if common.THOROUGH else 2
    full, tr, complete = spaces.terms(depth, max_states=60000 if common.THOROUGH else None)
    run.states, run.transitions, run.exhaustive = len(full), tr, complete
    variants = [(p, s, f) for p in POS for s in pyfix.STYLES for f in pyfix.FLAVOURS]
    n1 = len(spaces.terms(1)[0])
    cases = []
    for i, t in enumerate(full):
        if i < n1:
            sel = [v for j, v in enumerate(variants)
                   if common.THOROUGH or (i + j + common.SEED) % 3 == 0]
        else:
            k = 3 if common.THOROUGH else 1
            sel = [variants[(i * 7 + j * 13 + common.SEED) % len(variants)] for j in range(k)]
        cases.extend((t,) + v for v in sel)
    # maps with keys other than strings
    for key in ('integer', 'number', 'boolean'):
        for i, t in enumerate(spaces.terms(1)[0]):
            if t[0] != 'map' and (common.THOROUGH or i % 4 == common.SEED % 4):
                m = ('map', key, t)
                for j, m in enumerate((m, ('arr', m), ('uni', (m, spaces.NULL)), ('anon', (('p', 'o', m),)))):
                    cases.append((m,) + variants[(i * 5 + j * 7 + common.SEED) % len(variants)])
                    run.states += 1
    # tuples of any length and without items
    E = ('tup', ())
    for i, t in enumerate(spaces.terms(1)[0]):
        v = ('vtup', t)
        more = [v, ('arr', v), ('uni', (v, spaces.NULL)), ('uni', (('tup', (t, t)), v)), ('tup', (v, spaces.STR)), ('vtup', v)]
        if t in spaces.LEAVES:
            more += [('tup', (t, E)), ('map', 'string', v), ('anon', (('p', 'o', v), ('q', '', E))),
                     ('uni', (E, t)), ('uni', (v, spaces.STR)), ('vtup', ('uni', (spaces.Z, v)))]
        for j, m in enumerate(more):
            run.states += 1
            for n in range(6 if common.THOROUGH else 2):
                cases.append((m,) + variants[(i * 5 + j * 7 + n * 11 + common.SEED) % len(variants)])
    # size ladders
    for i, kind in enumerate(ladders.KINDS):
        for j, n in enumerate(ladders.sizes(kind)):
            for style in range(2) if common.THOROUGH else ((i + j + common.SEED) % 2,):
                cases.append(('ladder', kind, n, style))
                run.states += 1
    common.execute(run, cases, run_case)
    run.extra['type_modules'] = len(cases)
    for c in (cases[3], cases[len(cases) // 2], cases[len(cases) // 2 + 1]):
        run.sample(dict(type=tm.ts_type(c[0]), position=c[1], style=c[2], flavour=c[3]))
    run.rule = ('states: type terms up to depth %d; traces: validations of every conforming value and '
                'every single-point mutation against the term in its position and spelling' % depth)
    return run
