"""C01: accepted declarations become importable Python under every option."""
import builtins
import itertools
import sys
import types

import common
import docs
import hierarchy
import tsmodel as tm
from checks import docsem

BASES = ('TypedDict', '', 'verif_basemod.Base')
DECOS = ('', 'verif_dec')
SPELLED_BASES = ('verif_basemod.Base', 'verif_basemod.sub.BaseModel', 'verif_basemod.sub.low_er.b2', 'VerifBase')
SPELLED_DECOS = ('verif_dec', '@verif_dec', ' @verif_dec ', 'verif_dec.factory(total=True)', '@verif_dec.factory("a. b", [lambda c: 1 if c else 2])')
SWITCHES = ('UseEnum', 'UseTypeUnion', 'UseLiteralType', 'UseVariadicGenerics', 'UseNotRequired',
            'KeepMultilineComments')
CONFIGS = []
for _a in ('local', 'toplevel', 'functional'):
    for _b in BASES:
        for _d in DECOS:
            for _s in itertools.product((False, True), repeat=len(SWITCHES)):
                _n = len(CONFIGS) * 7 // 64      # spellings of base class and decorator take turns
                CONFIGS.append(dict(zip(SWITCHES, _s), RenderAnonymous=_a,
                                    BaseClassName=SPELLED_BASES[(len(CONFIGS) * 5 + _n) % 4] if '.' in _b else _b,
                                    ClassDecorator=SPELLED_DECOS[(len(CONFIGS) * 3 + _n) % 5] if _d else _d))


def verif_dec(c):
    return c


verif_dec.factory = lambda *a, **kw: verif_dec


def setup():
    m, sub, low = (types.ModuleType(n) for n in ('verif_basemod', 'verif_basemod.sub', 'verif_basemod.sub.low_er'))
    m.__path__ = sub.__path__ = []
    m.sub, sub.low_er = sub, low

    class Base:
        pass
    m.Base = sub.BaseModel = low.b2 = builtins.VerifBase = Base
    for mod in (m, sub, low):
        sys.modules[mod.__name__] = mod
    builtins.verif_dec = verif_dec


# types that are declared elsewhere, e.g. in TypeScript's library
ELSEWHERE = ('Missing', 'ns.Missing', 'Set', 'Map', 'WeakMap', 'Date', 'Promise', 'Record', 'Partial', 'Symbol', 'Object',
             'String', 'Number', 'Boolean', 'Function', 'Error', 'RegExp', 'Thenable', 'IterableIterator', 'Iterable',
             'Uint32Array', 'Uint8Array', 'ReadonlyArray', 'Array', 'Buffer', 'undefined', 'bigint', 'never', 'symbol',
             'Class', 'Optional_', 'Node', 'Type', 'Self', 'Never', 'Sequence', 'Mapping', 'FrozenSet', 'Literal_',
             'Decimal', 'UUID', 'Int', 'Str', 'Integer', 'Required', 'Readonly', 'Final', 'Annotated', 'Callable_')
NOT_GENERIC = ('undefined', 'Error', 'RegExp', 'Uint32Array', 'bigint', 'never', 'symbol')
ONE_PARAMETER = ('Thenable', 'IterableIterator', 'Array', 'ReadonlyArray', 'Set', 'WeakSet', 'Promise')
USES = ('interface Use { u: %s; v?: %s; }', 'interface Use { u: %s | null; v?: string | %s; }', 'interface Use { u: %s[]; v: (%s | null)[]; }',
        'interface Use { u: [%s, string]; v?: [integer, %s | string]; }', 'interface Use { u: { [k: string]: %s }; v?: { w: %s }; }',
        'interface Use { u: { w?: %s }[] | %s; }', 'interface Use { u: (a: %s) => %s; v?: (x?: %s) => void; }',
        'interface Use { m(a: %s, b?: %s): %s; n(...r: %s[]): void; }', 'interface Use { u: %s; m(): %s; }', 'interface Use<T> { u: T; v: %s; w: Array<%s>; }',
        'type Use = %s;', 'type Use = %s | string;', 'type Use = %s[] | { w: %s };', 'type Use = [%s, %s];', 'type Use = string | null | %s;',
        'function Use(a: %s, b?: %s[]): %s | null;', 'function Use(...r: %s[]): { w: %s };', 'const Use: %s;', 'const Use: %s[];',
        'interface Use { u: Array<%s>; v?: Array<Array<%s> | null>; }', 'namespace Use { export const c: %s; }')


def run_elsewhere(case):
    _, name, use, form, ci = case
    setup()
    cfg = CONFIGS[ci]
    text = use.replace('%s', form) + '\n'
    try:
        code, errors = common.transpile(text, cfg)
    except Exception as e:
        return dict(fail=[f'the transpiler raises {common.describe_exc(e)}'], n=1, outcomes=['raised'], shown=text)
    if common.has_error(errors):
        return dict(n=1, outcomes=['rejected'])
    try:
        mod = common.load_module(code)
    except Exception as e:
        return dict(fail=[f'import fails with a type {form} that is declared elsewhere: {common.describe_exc(e)}'],
                    shown=text + '\n' + str(cfg) + '\n' + common.body(code))
    fails = [] if 'Use' in mod.__dict__ or use.startswith('const') else ['Use has not been defined']
    common.unload(mod)
    return dict(fail=fails, outcomes=[common.body(code)[:4000]], shown=text + str(cfg) + common.body(code))


def document(spec):
    if spec[0] == 'menu':
        return docs.build(spec[1], spec[2])
    return hierarchy.document(spec[1])


COMMENTED = {'gap': '\n\n/** a comment: with {braces} and "quotes"\n * @deprecated */\n'}


def run_case(case):
    if case[0] == 'elsewhere':
        return run_elsewhere(case)
    spec, ci = case
    setup()
    cfg = CONFIGS[ci]
    doc = document(spec)
    text = tm.ts_doc(doc, COMMENTED if cfg['KeepMultilineComments'] else tm.PLAIN)
    try:
        code, errors = common.transpile(text, cfg)
    except Exception as e:
        return dict(fail=[f'the transpiler raises {common.describe_exc(e)}'], n=1, outcomes=['raised'], shown=text)
    if common.has_error(errors):
        return dict(n=1, outcomes=['rejected'])     # subject of C03, C10
    try:
        mod = common.load_module(code)
    except Exception as e:
        return dict(fail=[f'import fails: {common.describe_exc(e)}'],
                    shown=text + '\n' + str(cfg) + '\n' + common.body(code))
    fails = [f'{d[1]} has not been defined' for d in doc if d[1] not in mod.__dict__]
    fails += docs.unresolved(mod, doc)
    common.unload(mod)
    return dict(fail=fails, outcomes=[common.body(code)[:4000]] if not fails else [],
                shown=text + '\n' + str(cfg) + '\n' + common.body(code) if fails else '')


def main():
    run = common.Run('C01')
    common.prepare()
    one, tr1, _ = docs.states(1)
    two, tr2, _ = docs.states(2)
    hs, tr3 = hierarchy.states(4 if common.THOROUGH else 3)
    run.states = len(two) + len(hs)
    run.transitions = tr2 + tr3
    nc = len(CONFIGS)
    cases = []
    one_set = set(one)
    for i, s in enumerate(one):
        for c in range(nc):
            if common.THOROUGH or (c + i) % 16 == common.SEED % 16:
                cases.append((('menu',) + s, c))
    step = 3 if common.THOROUGH else 1
    for i, s in enumerate(two):
        if s not in one_set:
            for j in range(step):
                cases.append((('menu',) + s, (i * 37 + j * 101 + common.SEED) % nc))
    for i, h in enumerate(hs):
        for j in range(4 if common.THOROUGH else 1):
            cases.append((('hier', h), (i * 53 + j * 17 + common.SEED) % nc))
    elsewhere = []
    for i, name in enumerate(ELSEWHERE):
        for j, use in enumerate(USES):
            for k, form in enumerate((name,) + ((name + '<string>', name + '<Other, integer>') if name not in NOT_GENERIC else ())):
                if k == 2 and name in ONE_PARAMETER:
                    continue
                for l in range(12 if common.THOROUGH else 2):
                    elsewhere.append(('elsewhere', name, use, form, ((i * len(USES) + j) * 3 + k) * 47 % nc
                                      if l == 0 else (i * 31 + j * 59 + k * 7 + l * 101 + common.SEED) % nc))
    run.states += len(elsewhere)
    cases += elsewhere
    common.execute(run, cases, run_case)
    run.extra['documents_transpiled'] = len(cases)
    run.extra['option_sets'] = nc
    for c in (cases[0], cases[len(cases) // 2], cases[-len(elsewhere) - 1]):
        run.sample(dict(document=tm.ts_doc(document(c[0]))[-600:], options=CONFIGS[c[1]]))
    run.rule = ('states: documents of up to two items of the declaration menu in four placements of their '
                'context, all interface hierarchies up to the bound, and uses of types declared elsewhere; each with one or more of the '
                f'{nc} option sets; single items with every {1 if common.THOROUGH else 16}th option set')
    return run
