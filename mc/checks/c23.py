"""C23: the shipped parser is the one which the grammar file describes."""
import importlib.util
import itertools
import os
import re
import sys

import common
import docs
import tokens
import tsmodel as tm
from checks import c07, c10

SHIPPED, GENERATED, STALE, AST = None, [], False, None
FRAGMENT_ALPHABET = ('A', 'a.b', 'string', 'number', '"s"', "'i'", '1', '-2.5e3', 'true', '{', '}', '[', ']', '(', ')',
                     '<', '>', ':', ';', ',', '=', '|', '&', '?', '...', '=>', '*', '.', 'readonly', 'static', 'in', 'keyof',
                     'extends', 'as', 'export', 'const', 'function', '/* c */', '// l\n', '\\', '-', '@')
FRAGMENTS = ('a?: B[]', 'readonly static a: A | B', 'static readonly a', 'a: { b: C; d?(): E }', '[k: string]: A', '[ p in keyof T ]?: X',
             '(a: A, b?: B, ...r: C[]) => D', 'new () => A', '<A, B extends C = D>', '<A | B>', 'extends A, B<C>',
             'implements A', '[a: A, b?: B]', '[A, B[]]', 'A["b"]', 'A[B]', '(A | B)[]', '{ [k: string]: A; }',
             '"a" | 1 | -2 | true | null', 'A & B & (C | D)', 'a = 1', "'a' = \"b\"", '{ A, B }', '* as c', 'A = B;', '1.5E-3',
             '12e+4', '01', '-0.5', '{a: 1, "b": [true, {}],}', '[[], [1,],]', 'f<T>(a: T): void', 'export f?()',
             '[Symbol.iterator](): A', '[x.y](a)', 'let a: A', 'var: A', 'let', 'readonly', 'readonly A[]', '_a9: \u00e4\u4e2d',
             'true', 'trueish', 'stringify', 'string', 'nullable', 'const a: number = -1;', 'enum A { a, b = "c", }',
             'namespace A { const a: B = 1; export interface C { } }', 'namespace A { function f(): void; }',
             'declare module "m" { type A = B; }', 'import "m"', 'import * as a from "m"', 'interface A<T> extends B { };',
             'class A implements B { constructor(a: A); get b(): C }', 'type A<T> = | B | C;', 'x.y = 3;')


# texts of single tokens: all sequences of characters, what precedes and follows them, symbols to start with
LEXICAL = (('017.eE+- ', 4, '', '', ('literal', 'number', 'integer')),
           ('01.eE-', 4, 'a = ', ', b', ('item',)),
           ('"\'\\a\n ', 5, '', '', ('literal', 'string')),
           ('"\'a 9', 5, '', '= 1', ('item',)),
           ('a9_.-$\xe4 ', 4, '', '', ('identifier', 'name', 'variable', 'type')),
           ('/*a\n ', 5, 'A | ', ' B', ('types',)),
           ('/*a\n ', 5, '/*', '*/ B', ('types',)))
KEYWORDS = ('export', 'declare', 'interface', 'class', 'extends', 'implements', 'type', 'enum', 'const', 'namespace', 'module',
            'import', 'function', 'let', 'var', 'readonly', 'static', 'in', 'keyof', 'new', 'from', 'as', 'true', 'false', 'object',
            'array', 'string', 'number', 'boolean', 'null', 'integer', 'uinteger', 'decimal', 'unknown', 'any', 'void', 'undefined')
KEYWORD_CONTEXTS = (('', ' a: b', ('document', 'declaration', 'interface', 'const', '_namespace', 'type_alias', 'enum')),
                    ('', '', ('types', 'literal', 'identifier', 'name', 'type_name')),
                    ('a: ', ' b', ('declaration', 'argument')), ('', ': b', ('declaration', 'argument')),
                    ('', '(a: b): c', ('function',)), ('', ' f(): a', ('function',)), ('[p ', ' T]: a', ('map_signature',)),
                    ('A<T ', ' B>', ('generic_type', 'type')), ('interface A ', ' B { }', ('interface',)),
                    ('{', ' A}', ('symlist',)), ('* ', ' A', ('symbol',)), ('import A ', ' "b"', ('Import',)),
                    ('{', ': 1}', ('literal',)), ('', ', a', ('item', 'enum', 'types', 'arg_list')))


def words(alphabet, length, before, after):
    for n in range(length + 1):
        for s in itertools.product(alphabet, repeat=n):
            yield before + ''.join(s) + after


def keyword_texts(before, after):
    for k in KEYWORDS:
        for k2 in (k, k.capitalize(), k[:-1], k + 's', '_' + k, k[0].upper() + k[1:-1], 'a' + k):
            for glue in ('', ' ', '\n', '9', '_', '/**/'):
                for g2 in ('', ' ', '/**/'):
                    yield before + g2 + k2 + glue + after


def load_shipped():
    """The parser of the working tree, as it is contained in the transpiler (never regenerated)."""
    src = os.path.join(common.REPO, 'ts2pythonParser.py')
    path = os.path.join(common.SCRATCH, 'shipped_ts2pythonParser.py')
    with open(src, encoding='utf-8') as f:
        text = f.read()
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
    spec = importlib.util.spec_from_file_location('shipped_ts2pythonParser', path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules['shipped_ts2pythonParser'] = mod
    spec.loader.exec_module(mod)
    return mod, text


def setup():
    global SHIPPED, STALE, AST
    import DHParser
    from DHParser import dsl
    from DHParser.configuration import get_config_value, set_config_value, ALLOWED_PRESET_VALUES
    from DHParser.toolkit import md5
    mod, text = load_shipped()
    with open(os.path.join(common.REPO, 'ts2python.ebnf'), encoding='utf-8') as f:
        grammar = f.read()
    m = re.search(r'source_hash__ = "([\w.!? ]*)"', text)
    # a parser that is out of date will be regenerated when the tool is started; names of nodes may differ
    STALE = not m or m.group(1) != md5(grammar, DHParser.__version__)
    SHIPPED = mod.ts2pythonGrammar()
    AST = mod.ASTTransformation.factory()
    import ts2pythonParser
    GENERATED[:] = [ts2pythonParser.ts2pythonGrammar()] if STALE else []
    keep = get_config_value('optimizations')
    for opt in (keep, frozenset(), frozenset(ALLOWED_PRESET_VALUES['optimizations']) - {'none', 'all'}):
        set_config_value('optimizations', opt)
        GENERATED.append(dsl.create_parser(grammar, 'ts2python'))
    set_config_value('optimizations', keep)
    common.set_cfg({})


def observe(parser, text, start):
    try:
        tree = parser(text, start) if start else parser(text)
    except Exception as e:
        return ('exception', type(e).__name__)
    errors = sorted({(int(e.code), int(e.pos)) for e in tree.errors})
    if any(c >= 1000 for c, _ in errors):
        return ('rejected', tuple(errors) if not STALE else ())
    if STALE and not start:
        AST(tree)
    elif STALE:
        return ('accepted',)
    return ('accepted', tuple(errors), shape(tree))


def shape(node):
    """Names and contents of all nodes."""
    res = node._result
    return (node.name, str(res)) if not isinstance(res, tuple) else \
        (node.name, tuple(shape(c) for c in res))


def run_case(case):
    kind, starts, texts = case
    outs, n, fails, shown = set(), 0, [], ''
    for text in texts:
        if '\n' not in text:
            text += '\n'
        for start in starts:
            if start and (start not in SHIPPED or any(start not in g for g in GENERATED)):
                if not STALE:
                    return dict(fail=[f'no symbol {start!r} in one of the parsers'])
                continue
            a = observe(SHIPPED, text, start)
            n += 1
            outs.add((start, a[0], a[1] if a[0] != 'accepted' else len(str(a))))
            for i, g in enumerate(GENERATED):
                b = observe(g, text, start)
                if a != b:
                    fails.append(f'{text[:200]!r}{" as " + start if start else ""}: the shipped parser yields '
                                 f'{str(a)[:200]}, the parser generated from the grammar (variant {i}) {str(b)[:200]}')
                    shown = shown or text
                    break
        if len(fails) > 3:
            break
    return dict(fail=fails, n=n, outcomes=outs, shown=shown)


def main():
    run = common.Run('C23')
    common.prepare()
    setup()
    symbols = sorted(set(re.findall(r'^(\w+) *=', open(os.path.join(common.REPO, 'ts2python.ebnf'), encoding='utf-8').read(),
                                    re.M)))
    symbols = [s for s in symbols if s in GENERATED[0]]
    seen, cases = set(), []
    total = 0

    def add(kind, texts, starts=('',), size=100):
        nonlocal total
        texts = [t for t in texts if (t, starts) not in seen]
        seen.update((t, starts) for t in texts)
        total += len(texts) * len(starts)
        for k in range(0, len(texts), size):
            cases.append((kind, tuple(starts), tuple(texts[k:k + size])))
    step = 1 if common.THOROUGH else 4
    # fragments with every symbol of the grammar as the start
    syms = tuple(symbols)
    add('fragment', FRAGMENTS, syms, 5)
    add('fragment', (' '.join(s) for n in range(3) for s in itertools.product(FRAGMENT_ALPHABET, repeat=n)
                     if n < 2 or common.THOROUGH or hash_(s) % 6 == common.SEED % 6), syms, 20)
    for i, f in enumerate(FRAGMENTS):
        toks = [t[1] for t in tokens.tokenize(f)]
        add('fragment edit', (' '.join(t) for k, t in enumerate(c10.edits(toks, FRAGMENT_ALPHABET[::3]))
                              if k % (8 * step) == (i + common.SEED) % (8 * step)), syms, 20)
    for alphabet, length, before, after, starts in LEXICAL:
        add('lexical', words(alphabet, length + common.THOROUGH, before, after), tuple(s for s in starts if s in syms), 400)
    for before, after, starts in KEYWORD_CONTEXTS:
        add('keyword', (t for k, t in enumerate(keyword_texts(before, after)) if k % step == common.SEED % step or len(before + after) < 5),
            tuple(s for s in starts if s in syms), 200)
    # whole documents and their edits
    docs_ = [c07.source(s) for s in c07.specs()]
    add('document', docs_, size=1)
    for i, d in enumerate(docs_):
        toks = tokens.tokenize(d)
        add('layout', (c07.render(toks, p, f) for k, (p, f) in enumerate(c07.variants(toks, None, True, 0))
                       if k % (12 * step) == (i + common.SEED) % (12 * step)), size=20)
        add('edit', (' '.join(t) for k, t in enumerate(c10.edits([t[1] for t in toks]))
                     if k % (12 * step) == (i + common.SEED) % (12 * step)), size=20)
    add('tokens', (' '.join(s) for n in range(3) for s in itertools.product(c10.ALPHABET, repeat=n)))
    for i, d in enumerate(c10.SMALL):
        toks = [t[1] for t in tokens.tokenize(d)]
        add('edit', (' '.join(t) for t in c10.edits(toks)))
        add('char', (t for k, t in enumerate(c10.char_edits(d)) if k % step == (i + common.SEED) % step))
    add('nesting', c10.nestings((1, 2, 5, 20)), size=5)
    run.states = run.transitions = total
    common.execute(run, cases, run_case, chunk=2)
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(kind=c[0], starts=len(c[1]), text=c[2][0][:300]))
    run.rule = (f'states: (text, start symbol) - fragments and all pairs of tokens (quick: one in six) with each of the {len(symbols)} '
                'symbols of the grammar as the start, documents of the declaration menu, their layouts and single-token '
                'edits (quick: rotating slices), all token sequences up to length two, all single-token edits of small documents; '
                'syntax trees of the shipped parser and of three parsers generated at run time from the '
                'grammar file (default, no and all optimizations) must be equal, as well as codes and positions of errors')
    return run


def hash_(s):
    h = 0
    for c in ' '.join(s):
        h = (h * 31 + ord(c)) % 1000003
    return h
