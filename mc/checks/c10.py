"""C10: malformed input is always reported and never crashes the transpiler."""
import itertools

import common
import refgrammar
import spaces
import tokens
from checks import c07

ALPHABET = ('interface', 'class', 'export', 'declare', 'type', 'enum', 'const', 'namespace', 'module', 'import',
            'function', 'extends', 'implements', 'readonly', 'static', 'let', 'keyof', 'in', 'new', 'from', 'as',
            'true', 'A', 'a.b', 'string', '"s"', "'i'", '1', '-2.5', '{', '}', '[', ']', '(', ')', '<', '>', ':', ';',
            ',', '=', '|', '&', '?', '...', '=>', '*', '"', "'", '$', '/*', '//', '.', '\\')
EDIT_TOKENS = ('A', 'interface', 'export', 'string', '1', '"s"', '{', '}', '[', ']', '(', ')', '<', '>', ':', ';', ',',
               '=', '|', '&', '?', '...', '=>', '"', "'", 'const', 'type', '/*', '$')
CHARS = '{}[]()<>:;,=|&?."\'/*\\ \n\t\0\ufeff\u2028aA0_$#@\x1b\U0001f600'
SMALL = ('interface A { a?: B[]; b(x: T): void }', 'type T = "a" | [A, B] | { [k: string]: X };',
         'enum E { a = 1, b }', 'namespace N { export const a: number = -1; }', 'interface G<T> extends A<T>, B { }',
         'function f(a: string, ...r: any[]): void;', 'const k = 3;', 'import { A, B } from "m";',
         'type F = (a: A) => { b: string };', 'declare module "m" { interface A { } }',
         '[1, {a: "x"}], true', 'type U = A & B | (C)[] | D["e"];', 'interface S { [special](a: B): C }',
         'a.b = c;', 'type K = { [p in keyof T]?: X }')
MORE = ('const o = { a: 1, "b": [2, \'x\'], };', 'export enum F { "a", b = -1.5e-3, }', 'export function g(a?: A, b: B[],): C;',
        'interface I { a: A, b: B; c: [A, B] , }', 'interface M { a: string; [k: string]: X; };', 'import * as a from "m";',
        'class C<T> implements A, B<T> { static readonly a?: B; b?(x): C; (y): D }', 'type G<T extends A = B, V> = | T[];',
        'type N = new (a: A, ...r: B[]) => C<| D, E>;', 'let v: string; export readonly w?: A;', 'type P = readonly string[] | [a: A, b?: B];',
        'export namespace M { type T = A; b: B; function f(): C; const c = d; enum E { x } }', "import {a, b} from 'c'; d = {};")


def edits(toks, repl=EDIT_TOKENS):
    """All texts one token edit away."""
    n = len(toks)
    for i in range(n + 1):
        yield toks[:i]                                   # truncation
        for r in repl:
            yield toks[:i] + [r] + toks[i:]              # insertion
        if i < n:
            yield toks[:i] + toks[i + 1:]                # deletion
            yield toks[:i + 1] + toks[i:]                # duplication
            yield toks[i:]
            for r in repl:
                yield toks[:i] + [r] + toks[i + 1:]      # replacement
        if i + 1 < n:
            yield toks[:i] + [toks[i + 1], toks[i]] + toks[i + 2:]


def char_edits(text):
    for i in range(len(text) + 1):
        yield text[:i]
        for c in CHARS:
            yield text[:i] + c + text[i:]
        if i < len(text):
            yield text[:i] + text[i + 1:]


def nestings(depths):
    for d in depths:
        for a, b in (('[', ']'), ('(', ')'), ('{ a: ', ' }')):
            yield 'type T = ' + a * d + 'string' + b * d + ';'
            yield 'type T = ' + a * d + 'string'
        yield 'type T = ' + 'A<' * d + 'string' + '>' * d + ';'
        yield 'interface A { ' + 'a: { ' * d + '} ' * d + '}'
        yield '[' * d + '1' + ']' * d
        yield '{ a: ' * d
        yield 'declare module "m" { ' * d
        yield 'type T = ' + '(a: ' * d + 'string' + ') => A' * d + ';'
        yield 'type T = ' + ' | '.join(['A'] * d * 5) + ';'
        yield '// ' + 'x' * d + '\n' * d + '/*' * d


def run_case(case):
    texts = case[1]
    outs, n, fails, shown = set(), 0, [], ''
    for text in texts:
        n += 1
        if '\n' not in text:
            text += '\n'
        for cfg in ({},) if case[0] != 'cfg' else CFGS:
            msg = None
            try:
                code, errs = common.transpile(text, cfg)
                bad = common.has_error(errs)
                for e in errs:
                    if not 0 <= e[1] <= len(text):
                        msg = f'message with position {e[1]} outside of the text: {e[2]}'
                if code is not None and not isinstance(code, str):
                    msg = f'result of type {type(code)}'
                if code is None and not bad:
                    msg = 'no result, but no error message either'
                if not bad and not refgrammar.derivable(text):
                    msg = 'accepted without any error message'
                outs.add((bad, errs[0][0] if errs else 0, refgrammar.derivable(text) if bad else True, len(errs)))
            except Exception as e:
                msg = 'raises ' + common.describe_exc(e)
            if msg:
                fails.append(f'{text[:300]!r}: {msg}')
                shown = shown or text
        if len(fails) > 3:
            break
    return dict(fail=fails, n=n, outcomes=outs, shown=shown)


CFGS = ({}, dict(KeepMultilineComments=True, RenderAnonymous='toplevel'),
        dict(RenderAnonymous='functional', UseLiteralType=True, UseTypeUnion=True, UseNotRequired=True),
        dict(UseEnum=False, BaseClassName='', ClassDecorator='@deco'))


def main():
    run = common.Run('C10')
    common.prepare()
    seen, cases = set(), []

    def add(kind, texts):
        texts = [t for t in texts if t not in seen]
        seen.update(texts)
        for k in range(0, len(texts), 100):
            cases.append((kind, tuple(texts[k:k + 100])))
    # token sequences
    add('tokens', (' '.join(s) for n in range(3) for s in itertools.product(ALPHABET, repeat=n)))
    three = itertools.product(ALPHABET, repeat=3)
    add('tokens', (' '.join(s) for i, s in enumerate(three) if common.THOROUGH or i % 12 == common.SEED % 12))
    # edits of documents
    docs = [c07.source(s) for s in c07.specs()]
    for i, d in enumerate(docs):
        toks = [t[1] for t in tokens.tokenize(d)]
        add('cfg' if i % 4 == 0 and common.THOROUGH else 'edit',
            (' '.join(t) for k, t in enumerate(edits(toks)) if common.THOROUGH or k % 24 == (i + common.SEED) % 24))
    for i, d in enumerate(SMALL):
        toks = [t[1] for t in tokens.tokenize(d)]
        one = list(edits(toks))
        add('cfg', (' '.join(t) for t in one))
        two = (e for t in one for e in edits(t, EDIT_TOKENS[::7]))
        step = 2 if common.THOROUGH else 150
        add('edit2', (' '.join(t) for k, t in enumerate(two) if k % step == (i + common.SEED) % step))
        add('char', char_edits(d))
    for i, d in enumerate(MORE):
        toks = [t[1] for t in tokens.tokenize(d)]
        add('cfg' if common.THOROUGH else 'edit', (' '.join(t) for t in edits(toks)))
        if common.THOROUGH:
            two = (e for t in edits(toks) for e in edits(t, EDIT_TOKENS[::7]))
            add('edit2', (' '.join(t) for k, t in enumerate(two) if k % 4 == (i + common.SEED) % 4))
    add('nesting', nestings((1, 2, 5, 20, 60) + ((120,) if common.THOROUGH else ())))
    run.states = len(seen)
    run.transitions = len(seen)
    common.execute(run, cases, run_case, chunk=2)
    for c in (cases[40], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(kind=c[0], text=c[1][0][:200]))
    run.rule = ('states: texts - all token sequences up to length 2 (3 in thorough) over an alphabet of '
                f'{len(ALPHABET)} tokens, all single-token edits of small documents and of the documents of the '
                'declaration menu (quick: every 24th, rotating), double edits, single-character edits, nestings; '
                'oracle: an independent recogniser of an over-approximation of the grammar')
    return run
