"""C28: nothing is dropped silently and nothing is reported without reason.

Part 1: documents with one or two uses of constructs that the transpiler does not support, in all
places where a type may occur.  Each use must be reported at its place, nothing else may be reported,
and the generated code must be the one for the same document with 'any' in its place.
Part 2: documents of supported constructs only: no messages at all.
Part 3: sequences of declarations with equal and different names in different scopes: each repeated
declaration has to be reported at its place, and nothing else."""
import itertools

import common
import docs
import spaces
import tsmodel as tm

# text of the construct, text of a supported construct with the same rendering, kind
UNSUPPORTED = (
    ('A & K', 'any', 'inter'),
    ("A['a']", 'any', 'index'),
    ('{[k in keyof A]: string}', '{[k: any]: string}', 'map'),
    ('A & {z: string; w: K}', 'any', 'inter'),
    ('A[K]', 'any', 'index'),
    ('{[k in keyof K]: {n: A}}', '{[k: any]: {n: A}}', 'map'),
    ("A & K & {y: A['a']; z: (A & K)[]}", 'any', 'inter'),
    ('(string | A) & K', 'any', 'inter'),
    ("(A & K)", '(any)', 'inter'),
    ('A["a"]', 'any', 'index'),
    ('string[] & A', 'any', 'inter'),
    ('{[k in keyof A]?: number}', '{[k: any]?: number}', 'map'),
    ('{ readonly [k in keyof A]: A | K; }', '{ readonly [k: any]: A | K; }', 'map'),
    ("'x' & string", 'any', 'inter'),
)
# @ is the place of the type, ^ the place of a type within angle brackets or a declaration that does not allow unions
PLACES = (
    'interface X { m: @ }',
    'interface X { m?: @; }',
    'export interface X extends A { n: string; readonly m: @; o: K }',
    'interface X { m: (@)[] }',
    'interface X { m: [string, @] }',
    'interface X { m: {[k: string]: @} }',
    'interface X { m: {n: @} }',
    'interface X { m?: {n?: {o: @}[]; p: K}; q: @ }',
    'interface X { m: string | @ }',
    'interface X { m: @ | null; n: @ }',
    'interface X { m: A | @ | K | @ }',
    'interface X { m: (a: @) => string }',
    'interface X { m: (a: string, b?: @) => @ }',
    'interface X { f(a: @): void }',
    'interface X { f(a?: @): @ }',
    'interface X { f(a: string): @; f(a: A, b: @): K }',
    'interface X { (a: @): string; g: @ }',
    'class X implements A { static f(a: {n: @}): @; m: @ }',
    'class X { constructor(a: @); m: K }',
    'type X = @;',
    'type X = {n: @};',
    'type X = string | (@)[] | @;',
    'export type X<T> = [T, @];',
    'function f(a: @): @;',
    'export function f(a: string, b?: {n: @}): (@)[];',
    'function f(a: string): @; function f(a: A): @;',
    'export const c: @;',
    'namespace N { export interface X { m: @ } export function f(a: @): K; }',
    'namespace N { type X = @; export const c: @ = 1; }',
    'namespace N { m: @; export function f(a: string): @; }',
    'declare module "mod" { interface X { m: @ } type Y = @; }',
    'interface X { m: Array<^> }',
    'interface X<T> { m: T } interface Y extends X<^> { n: ^ }',
    'interface X<T> { m: T | @; n: X<^>[]; o: Array<{p: @}> }',
)
SIGNATURES = ('[key: string]: A', 'readonly [x: number]: string | K', "[k: integer]: {a: A}[]")   # beside other members
PLACES += (
    'interface X { m: string; ~ }',
    'interface X { m: @; n?: {o: A; ~} | K; ~ }',
    'interface X { f(a: {m: A; ~}, b: @): {n: K; ~}; ~ }',
    'type X = {a: K; ~ };',
    'function f(a: {m: A; ~}): @;',
    'namespace N { interface X { m: @; ~ } export function f(a: string): void; }',
)
HEAD = 'interface A { a: string }\ninterface K { b?: A }\n'


def documents(place, us):
    """-> (text with unsupported constructs, text with supported ones, [(begin, end)])"""
    parts, plain, spans, i = [HEAD], [HEAD], [], 0
    for ch in place + '\n':
        if ch in '@^~':
            if ch == '~':
                u, p = SIGNATURES[(us[-1][2] == 'map') + (us[0][2] == 'index')], ''
            else:
                u, p, _ = us[i % len(us)]
                i += 1
            pos = sum(map(len, parts))
            parts.append(u)
            plain.append(p)
            begin = len(''.join(parts[:-1]).rstrip(' |(;'))     # the separator belongs to the alternative of a union
            spans.append((min(pos, begin), pos + len(u)))
        else:
            parts.append(ch)
            plain.append(ch)
    return ''.join(parts), ''.join(plain), spans


def code_of(text, cfg):
    code, errors = common.transpile(text, cfg)
    body = common.body(code or '')
    return '\n'.join(l for l in body.split('\n') if 'source_hash__' not in l), errors


def run_unsupported(case):
    _, pi, us, ci = case
    cfg = spaces.CONFIGS[ci]
    text, plain, spans = documents(PLACES[pi], [UNSUPPORTED[u] for u in us or (0,)])
    code, errors = code_of(text, cfg)
    ref, referrs = code_of(plain, cfg)
    fails = []
    if referrs:
        fails.append(f'supported constructs are reported: {referrs[:2]}: {plain[len(HEAD):]}')
    for c, pos, msg in errors:
        if c >= 1000:
            fails.append(f'rejected: {msg} at {pos}')
        elif not any(b <= pos < e for b, e in spans):
            fails.append(f'message at {pos} ({text[pos:pos + 12]!r}), where nothing is unsupported: {msg}')
    for b, e in spans:
        if not any(b <= pos < e for c, pos, m in errors):
            fails.append(f'{text[b:e]!r} at {b} is not reported')
    if not fails and code != ref:
        fails.append('the generated code differs from the code for the type any')
    return dict(fail=fails[:2], outcomes=[tuple(sorted(m for _, _, m in errors))], n=2,
                shown=text + '\n' + str(cfg) + '\n' + code + '\n' + str(errors) if fails else '')


def run_supported(case):
    _, spec, ci = case
    cfg = spaces.CONFIGS[ci]
    text = tm.ts_doc(docs.build(*spec)) if isinstance(spec, tuple) else spec
    code, errors = common.transpile(text, cfg)
    return dict(fail=[f'a document without unsupported constructs is reported: {errors[0]}'] if errors else [],
                outcomes=[len(code or '')], shown=text + '\n' + str(cfg))


# ---------------------------------------------------------------- functions with special names, constructors

SPECIALS = ('Symbol.iterator', 'Symbol.asyncIterator', 'Symbol.toString', 'symbol.iterator', 'Symbol', 'iterator', 'special',
            'Symbol.iterator.next', 'Symbol.Iterator', 'toString')
SIGNATURE = ('(): A', '(a: string): K', '(a: A, ...r: K[]): A[]', '()')
BODIES = ('interface X { % }', 'export class X implements A { % ; m: string }', 'interface X<T> extends A { n?: K; %; o: T }',
          'interface X { m: { %; n: K } }', 'interface X { % ; % }', 'type X = { n: K, % };', 'interface X { f(a: { % }): K; % }',
          'namespace N { interface X { f(a: K): void; % } }', 'declare module "m" { class X { % } }')
CONSTRUCTORS = ('class X { % }', 'export class X extends A { m: string; % }', 'class X<T> { %; f(a: T): void }',
                'class X { %; % }', 'namespace N { class X { m?: K; % } }')
CONSTRUCTOR = ('constructor(zq: A)', 'constructor(zq?: string, zr: K[])', 'constructor(...zq: A[]): X')


def run_special(case):
    _, body, names, sigs, ci = case
    cfg = spaces.CONFIGS[ci]
    constructor = names == 'constructor'
    text, spans, known, k = HEAD, [], 0, 0
    for ch in (CONSTRUCTORS if constructor else BODIES)[body] + '\n':
        if ch != '%':
            text += ch
            continue
        if constructor:
            t = CONSTRUCTOR[sigs[k % len(sigs)]].replace('zq', 'zq%i' % k)
            spans.append((len(text), len(text) + len(t)))
        else:
            name = SPECIALS[names[k % len(names)]]
            t = f'[{name}]' + SIGNATURE[sigs[k % len(sigs)]]
            if name == 'Symbol.iterator':
                known += 1
            else:
                spans.append((len(text), len(text) + len(t)))
        k += 1
        text += t
    code, errors = code_of(text, cfg)
    fails = []
    for c, pos, m in errors:
        if not any(b <= pos < e for b, e in spans):
            fails.append(f'message without reason at {pos}: {m}')
    for i, (b, e) in enumerate(spans):
        if constructor and f'zq{i}' in code and 'Constructor' in code:
            continue
        if not any(b <= pos < e for c, pos, m in errors):
            f = f'{text[b:e]!r} is not reported'
            fails.append(('constructor', f) if constructor else f)
    if known and 'def __iter__' not in code and not any(c >= 1000 for c, _, _ in errors):
        fails.append('no method __iter__')
    return dict(fail=fails[:2], outcomes=[(len(errors), known)], shown=text + '\n' + str(cfg) + '\n' + code + '\n' + str(errors))


# ---------------------------------------------------------------- repeated declarations

DECLS = {
    'iface': 'interface @ { a: string }',
    'export': 'export interface @ { a: string; }',
    'class': 'class @ { f(a: string): void }',
    'generic': 'interface @<TT> { a: TT }',
    'alias': 'type @ = string;',
    'enum': 'enum @ { one, two }',
    'cns': 'namespace @ { export const one = 1; }',
    'ns': 'namespace @ { export function f(a: string): void; }',
    'usestp': 'interface U# <@> { a: @; f<@>(b: @): void }',      # a type parameter of that name
    'member': 'interface U# { @: string }',
    'inner': 'namespace U# { interface @ { a: string } export function g(): @; }',
}
KINDS = {'iface': 'class', 'export': 'class', 'class': 'class', 'generic': 'class', 'alias': 'alias', 'enum': 'enum', 'cns': 'enum', 'ns': 'enum'}
SCOPES = ('%s', 'namespace Outer {\n%s\nexport function h(): void;\n}', 'declare module "outer" {\n%s\n}')
INNER = ('iface', 'alias', 'enum', 'generic', 'class')      # what is allowed inside of namespaces


def run_repeated(case):
    _, seq, scope, ci = case
    cfg = spaces.CONFIGS[ci]
    before, after = SCOPES[scope].split('%s')
    text, spans = before, []
    for i, (kind, name) in enumerate(seq):
        d = DECLS[kind].replace('@', name).replace('#', str(i))
        spans.append((len(text), len(text) + len(d)))
        text += d + '\n'
    text += after + '\n'
    _, errors = common.transpile(text, cfg)
    fails = []
    seen = {}
    may, must = [], []
    for (kind, name), span in zip(seq, spans):
        k = KINDS.get(kind)
        if k is None:
            continue
        if name in seen:
            # an alias may stand beside an enumeration of the same name
            if any(k2 == 'class' or k == 'class' or k == k2 for k2 in seen[name]) and \
                    {'alias', 'enum'} - {KINDS.get(k2) for k2, n2 in seq if n2 == name}:
                must.append(span)
            else:
                may.append(span)
        seen.setdefault(name, set()).add(k)
    for c, pos, m in errors:
        if not any(b <= pos < e for b, e in must + may):
            fails.append(f'message without reason at {pos}: {m}')
        if c >= 1000:
            fails.append(f'error at {pos}: {m}')
    for b, e in must:
        if not any(b <= pos < e for c, pos, m in errors):
            fails.append(f'repeated declaration {text[b:e]!r} is not reported')
    return dict(fail=fails[:2], outcomes=[tuple(m for _, _, m in errors)],
                shown=text + '\n' + str(cfg) + '\n' + str(errors) if fails else '')


def run_case(case):
    return {'unsupported': run_unsupported, 'supported': run_supported, 'repeated': run_repeated, 'special': run_special}[case[0]](case)


def main():
    run = common.Run('C28')
    common.prepare()
    nc = len(spaces.CONFIGS)
    cases, n = [], common.SEED
    for pi, place in enumerate(PLACES):
        holes = place.count('@') + place.count('^')
        pool = [i for i, u in enumerate(UNSUPPORTED) if u[2] == 'index' or '^' not in place]
        for us in itertools.product(pool, repeat=min(holes, 3 if common.THOROUGH else 2)):
            for _ in range(4 if common.THOROUGH else 1):
                n += 7
                cases.append(('unsupported', pi, us, n % nc))
    one, t, _ = docs.states(2 if common.THOROUGH else 2)
    for i, spec in enumerate(one):
        if common.THOROUGH or len(spec[0]) == 1 or (i + common.SEED) % 3 == 0:
            n += 7
            cases.append(('supported', spec, n % nc))
    from checks import c24
    for i, (members, weight) in enumerate(itertools.chain(c24.signatures(), c24.overloads())):
        for j, place in enumerate(c24.PLACES):
            if (common.THOROUGH or (i + j) % (3 * weight) == 0) and c24.admissible(members, place):
                n += 7
                cases.append(('supported', c24.text_of(members, place), n % nc))
    names = ('P', 'Q')
    for scope in range(len(SCOPES)):
        kinds = [k for k in DECLS if scope != 1 or k in INNER]
        alphabet = [(k, nm) for k in kinds for nm in names]
        for depth in (1, 2, 3, 4) if common.THOROUGH else (1, 2, 3):
            for i, seq in enumerate(itertools.product(alphabet, repeat=depth)):
                if seq[0][1] != 'P' or depth == 4 and i % 5:
                    continue
                n += 7
                cases.append(('repeated', seq, scope, n % nc))
    for body in range(len(BODIES)):
        for ns in itertools.product(range(len(SPECIALS)), repeat=min(2, BODIES[body].count('%'))):
            for sigs in itertools.product(range(len(SIGNATURE)), repeat=len(ns)):
                if common.THOROUGH or (sum(sigs) + sum(ns) + body) % 3 == common.SEED % 3 or len(ns) == 1:
                    n += 7
                    cases.append(('special', body, ns, sigs, n % nc))
    for body in range(len(CONSTRUCTORS)):
        for sig in range(len(CONSTRUCTOR)):
            for ci in range(nc):
                cases.append(('special', body, 'constructor', (sig,), ci))
    run.states = len(cases)
    run.transitions = len(cases)
    for k in ('unsupported', 'supported', 'repeated', 'special'):
        c = [c for c in cases if c[0] == k]
        run.extra[k] = len(c)
        run.sample(str(c[len(c) // 2])[:300])
    run.rule = ('states: (place, unsupported constructs), documents of the declaration menu and signatures, sequences of '
                'declarations over two names in three scopes, methods with special names and constructors; each under one of the configurations')
    common.execute(run, cases, run_case)
    return run
