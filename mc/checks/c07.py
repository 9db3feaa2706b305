"""C07: layout and comments do not influence the result."""
import common
import docs
import tokens
import tsmodel as tm
from checks import c25

FILLERS = (' ', '\n', '\t', '\r\n', '\n\n   \n', '/* c */', '/** doc: "a" */\n', '// line\n',
           "/* it's { [ ( < \" interface X */", "// don't \"\n", ' /* a\n * b; }\n */ ', '// x\n\n/* y */ // z\n',
           '/**/', '/***/', '/* a **/', '//\n', '/* // */', '// /*\n', '/* * / */', '/** @see {@link A} "b" */ ',
           '/* \u00e4\u4e2d */', '\n\n/**\n * text\n */\n\n')
EXTRA_DOCS = (
    '''export interface S1<T extends A> extends A, B<string> { readonly a?: string; b(x: T, ...r: any[]): void; }
declare class C implements A { constructor(a: string); }
export namespace N { export const a: number = -1.5; export const b = "x"; }
export type U = | 'a' | "b" | (string | A[])[] | { [key: string]: A } | [A, B<A>] | ((a: string, b?: A) => void) | null;
enum E { 'a' = 1, b = 2, }
const k: number = 3;
import { A, B } from "mod";
x.y = 3;
export function f(a: string, b?: { c: A }): A[];
''',
    '''interface K { readonly: string; static?: A; let: number, export: string; var?: boolean; readonly type: A; in: A; }
interface M { function(a: A): A; static(b: string): void; export?(c: A): A; get<T>(x: T): T; readonly s: string; }
export const readonly = 3;
{ line: 2, "name": [1, 2.5e3, 'x'], o: {}, t: true },
["a"]
interface A { type?: 'readonly' | "x"; const: -1; }
namespace P { const static = "s"; const b: integer = 2; }
''',
)


def source(spec):
    if spec[0] == 'menu':
        return tm.ts_doc(c25.document(spec))
    return EXTRA_DOCS[spec[1]]


def variants(toks, spec, thorough, sel):
    """(position, filler): filler inserted before that token only, or everywhere"""
    n = len(toks)
    for pos in range(n + 1):
        for f in range(len(FILLERS)):
            if thorough or (pos + f * 5 + sel) % 2 == 0:
                yield pos, f
    for f in range(-1, len(FILLERS)):
        yield 'all', f


def render(toks, pos, f):
    fl = FILLERS[f] if f >= 0 else ''
    if pos == 'all':
        return tokens.join(toks, lambda i: fl if i or not f < 0 else '')
    return tokens.join(toks, lambda i: (' ' if 0 < i < len(toks) else '') + (fl if i == pos else ''))


CONFIGS = (dict(), dict(UseTypeUnion=True, UseLiteralType=True, UseNotRequired=True),
           dict(RenderAnonymous='toplevel'), dict(RenderAnonymous='functional', UseLiteralType=True))


def run_case(case):
    spec, ci, vs = case
    cfg = CONFIGS[ci]
    toks = tokens.tokenize(source(spec))
    plain = render(toks, None, 0)
    code, errs = common.transpile(plain, cfg)
    if common.has_error(errs):
        return dict(fail=[f'reference document rejected: {errs[:2]}'], shown=plain)
    ref = common.body(code), sorted((e[0], e[2]) for e in errs)
    n = 1
    for pos, f in vs:
        text = render(toks, pos, f)
        n += 1
        try:
            code, errs = common.transpile(text, cfg)
            got = common.body(code or ''), sorted((e[0], e[2]) for e in errs)
        except Exception as e:
            got = common.describe_exc(e), []
        if got != ref:
            what = 'rejected: ' + str([e[1] for e in got[1] if e[0] >= 1000][:2]) \
                if any(e[0] >= 1000 for e in got[1]) else 'different output: ' + first_diff(ref[0], got[0])
            where = 'everywhere' if pos == 'all' else f'before token {pos} {toks[pos][1] if pos < len(toks) else "EOF"!r}'
            return dict(fail=[f'filler {FILLERS[f] if f >= 0 else ""!r} {where}: {what}'], n=n, shown=text)
    return dict(fail=[], n=n, outcomes=[ref[0][:2000]])


def first_diff(a, b):
    for x, y in zip(a.split('\n'), b.split('\n')):
        if x != y:
            return f'{y!r} instead of {x!r}'
    return 'length'


def specs():
    return [('menu', (k,)) for k in docs.MENU] + [('extra', i) for i in range(len(EXTRA_DOCS))] + \
        [('menu', ('refs', 'anon_pos')), ('menu', ('unions', 'enum_str')), ('menu', ('alias_lit', 'methods'))]


def main():
    run = common.Run('C07')
    common.prepare()
    cases, n = [], 0
    for i, s in enumerate(specs()):
        toks = tokens.tokenize(source(s))
        for ci in range(len(CONFIGS)) if common.THOROUGH else [(i + common.SEED) % len(CONFIGS)]:
            vs = list(variants(toks, s, common.THOROUGH, i + ci))
            n += len(vs)
            for k in range(0, len(vs), 60):
                cases.append((s, ci, tuple(vs[k:k + 60])))
    run.states, run.transitions = n, n
    common.execute(run, cases, run_case, chunk=1)
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(document=render(tokens.tokenize(source(c[0])), *c[2][0])[:500], position=c[2][0][0]))
    run.rule = (f'states: (document, token boundary, filler) for {len(FILLERS)} fillers of white space, line breaks '
                'and comments at every token boundary (quick: every boundary with a rotating half of the fillers), '
                'each filler at all boundaries at once, and no white space at all where possible')
    return run
