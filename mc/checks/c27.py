"""C27: extracting TypeScript from a specification.

The documents are the paths of an automaton over kinds of lines (outside of blocks, in a typescript
block, in the dropped rest of a typescript block, in a block of another language), which also tells
the lines that have to be written.  The second part enumerates include graphs.  Each document is
processed by the command line tool itself; the network is replaced by a table of files."""
import io
import itertools
import os
import random
import re
import sys
import types
import urllib.request

import common

SCRIPT = os.path.join('demo', 'extract_ts_from_lsp_specs.py')

# (text, next state, written?); 'T': typescript, 'D': rest of a typescript block behind data or a call,
# 'X': other block, 'O': outside; the first entries make up the small alphabet
LINES = {
    'O': (('Some text', 'O', 0), ('```typescript', 'T', 0), ('```json', 'X', 0), ('interface Outside {', 'O', 0), ('', 'O', 0),
          ('  ```typescript', 'T', 0), ('```', 'X', 0), ('```typescript  ', 'T', 0), ('{ "outside": 1 }', 'O', 0), ('// outside', 'O', 0),
          ('inline ```typescript``` code', 'O', 0), ('f(1)', 'O', 0), ('{% raw %}', 'O', 0), ('\t```typescript', 'T', 0)),
    'T': (('interface A {', 'T', 1), ('```', 'O', 0), ('{ "data": 1', 'D', 0), ('// comment', 'T', 0), ('', 'T', 1),
          ('call.it(1);', 'D', 0), ('  // comment', 'T', 1), ('}', 'T', 1), ('  ```', 'O', 0), ('[1, 2]', 'D', 0), ('\tü: string; // member', 'T', 1),
          ('export function f(a: A): void;', 'T', 1), ('call({', 'D', 0), ('  f(a: A): void;', 'T', 1), ('/* // */', 'T', 1), ('```  ', 'O', 0),
          ('type T = A | {', 'T', 1), ('  { a: 1 }', 'T', 1), ('/// triple', 'T', 0), ('const a = f(1);', 'T', 1), ('a.b.c()', 'D', 0), ('    ', 'T', 1),
          ('{', 'D', 0), ('[{', 'D', 0), ('/', 'T', 1), ('namespace N { // }', 'T', 1), ('  ```json is no end', 'T', 1), ('````', 'T', 1), ('"a{": string', 'T', 1), ('import { A } from "b";', 'T', 1)),
    'D': (('\t"more": 2', 'D', 0), ('```', 'O', 0), ('interface Data {', 'D', 0), ('', 'D', 0),
          ('}', 'D', 0), ('  ```', 'O', 0), ('// in data', 'D', 0), ('```json', 'D', 0)),
    'X': (('interface Json {', 'X', 0), ('```', 'O', 0), ('{ "json": 1 }', 'X', 0), ('', 'X', 0),
          ('  ```', 'O', 0), ('typescript', 'X', 0), ('// in other block', 'X', 0), ('``` no end', 'X', 0)),
}
SMALL = {'O': 4, 'T': 6, 'D': 3, 'X': 3}

FILES = {}


class FakeFile(io.BytesIO):
    pass


def fake_urlopen(url, *args, **kw):
    url = getattr(url, 'full_url', url)
    if url not in FILES:
        raise OSError(f'not found: {url}')
    return FakeFile(FILES[url])


_code = None


def run_tool(args):
    """Runs the tool in the current directory and returns the files it has written."""
    global _code
    path = os.path.join(common.TREE, SCRIPT)
    if _code is None:
        with open(path, encoding='utf-8') as f:
            _code = compile(f.read(), path, 'exec')
    wd = os.path.join(common.SCRATCH, 'x%d' % os.getpid())
    os.makedirs(wd, exist_ok=True)
    os.chdir(wd)
    old = sys.argv, sys.stdout, urllib.request.urlopen, sys.modules['__main__']
    mod = types.ModuleType('__main__')
    mod.__file__ = path
    sys.modules['__main__'] = mod
    sys.argv, sys.stdout, urllib.request.urlopen = [path] + list(args), io.StringIO(), fake_urlopen
    try:
        exec(_code, mod.__dict__)
        err = None
    except SystemExit as e:
        err = f'exits with {e.code}' if e.code else None
    except Exception as e:
        err = common.describe_exc(e)
    finally:
        sys.argv, sys.stdout, urllib.request.urlopen, sys.modules['__main__'] = old
    out = {}
    for name in os.listdir(wd):
        p = os.path.join(wd, name)
        if os.path.isfile(p):
            with open(p, encoding='utf-8', newline='') as f:
                out[name] = f.read()
            os.unlink(p)
    return out, err


def essence(lines):
    return [l.rstrip('\r') for l in lines if l.strip()]


def judge(args, dest, want, comments=()):
    out, err = run_tool(args)
    if err:
        return f'raises {err}'
    if set(out) != {dest}:
        return f'writes {sorted(out)} instead of {dest}'
    got = [l for l in essence(out[dest].split('\n'))
           if not (l.strip().startswith('/*') and l.strip().endswith('*/') and any(c in l for c in comments))]
    want = essence(want)
    if got == want:
        return ''
    i = next((i for i, (g, w) in enumerate(itertools.zip_longest(got, want)) if g != w))
    return f'line {i + 1} is {(got + [None] * (i + 1))[i]!r} instead of {(want + [None] * (i + 1))[i]!r}'


def text_of(path):
    state, lines, want = 'O', [], []
    for i in path:
        line, nxt, written = LINES[state][i]
        lines.append(line)
        if written:
            want.append(line)
        state = nxt
    return lines, want, state


BASE = 'https://host/docs/_specifications/lsp/1/'


def run_lines(case):
    _, path, style = case
    lines, want, state = text_of(path)
    text = ('\r\n' if style & 1 else '\n').join(lines) + ('' if style & 2 else '\r\n' if style & 1 else '\n')
    FILES.clear()
    FILES[BASE + 'spec.md'] = text.encode('utf-8')
    d = judge([BASE + 'spec.md'], 'spec.ts', want)
    return dict(fail=[d] if d else [], outcomes=[(state, len(want), path[-1])], shown=text)


# ---------------------------------------------------------------- include graphs

# name -> (path of the file, ways to include it)
NAMES = (
    (('types/a.md', 'rel'), ('messages/3.18/b.md', 'abs'), ('types/c.md', 'abs')),
    (('a-b.md', 'rel'), ('x/type_hierarchy.md', 'rel'), ('sub/y/Z.md', 'abs')),
    (('messages/2/a.md', 'abs'), ('types/b_c.md', 'abs'), ('c-d/e.md', 'abs')),
    (('a.md', 'rel'), ('b.md', 'rel'), ('c.v2.md', 'rel')),
)
TAGS = ('{% include%s %s %}', '{%include%s %s%}', '{%  include%s  %s  %}')
ROOTS = ((BASE, 'spec.md', 'https://host/docs/_includes/'),
         ('www.host/_specifications/', 'specification-3-18.v2.md', 'www.host/_includes/'),
         ('LOCAL/docs/_specifications/lsp/', 'README', 'LOCAL/docs/_includes/'),
         ('_specifications/', 'spec.md', '_includes/'),
         ('x/_specifications/1/', 'spec.md', 'x/_includes/'))


def file_text(items, me, names, tag, newline):
    """items: 'T' text, 'B' typescript block, 'P' other block, number: include"""
    parts = []
    for n, x in enumerate(items):
        if x == 'T':
            parts.append(f'# text {me} interface NoBlock {{ as in ' + ', '.join(n for n, _ in names))
        elif x == 'B':
            parts.append(f'```typescript\ninterface B{me}_{n} {{\n  // member\n  a: string;\n}}\n```')
        elif x == 'D':
            parts.append(f'```typescript\ntype D{me}_{n} = string;\ncall({{\n  a: 1\n}})\n```')
        elif x == 'P':
            parts.append(f'```\ninterface Other{me}_{n} {{ a: string }}\n```')
        elif x == 'S':
            parts.append(f'<a href="#x{me}" name="y"></a>')
        else:
            path, how = names[x - 1]
            parts.append(TAGS[tag].replace('%s', '_relative' if how == 'rel' else '', 1).replace('%s', path, 1))
    return '\n'.join(parts) + ('\n' if newline else '')


def wanted(me, files):
    for n, x in enumerate(files[me]):
        if x == 'B':
            yield from (f'interface B{me}_{n} {{', '  // member', '  a: string;', '}')
        elif x == 'D':
            yield f'type D{me}_{n} = string;'
        elif isinstance(x, int):
            yield from wanted(x, files)


def run_graph(case):
    _, files, ni, tag, root, newline, redirect = case
    names = NAMES[ni]
    base, spec, inc = ROOTS[root]
    local = not base.startswith(('http', 'www.'))
    texts = {}
    for me, items in enumerate(files):
        if items is None:
            continue
        path = base + spec if me == 0 else (inc if names[me - 1][1] == 'abs' else base) + names[me - 1][0]
        texts[path] = file_text(items, me, names, tag, newline)
    if redirect:
        texts[base + 'real-' + spec + '.md'] = texts[base + spec]
        texts[base + spec] = 'real-' + spec + '.md'
    FILES.clear()
    arg = base + spec
    if local:
        top = os.path.join(common.SCRATCH, 'd%d' % os.getpid())
        for path, text in texts.items():
            # relative paths start from the directory in which the tool is run
            p = path.replace('LOCAL', top) if 'LOCAL' in path else os.path.join(common.SCRATCH, 'x%d' % os.getpid(), path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', encoding='utf-8', newline='') as f:
                f.write(text)
        arg = arg.replace('LOCAL', top)
    else:
        for path, text in texts.items():
            FILES[path if path.startswith('http') else 'https://' + path] = text.encode('utf-8')
    i = spec.rfind('.')
    dest = (spec[:i] if i >= 0 else spec) + '.ts'
    used = [n for n, _ in names]
    d = judge([arg], dest, list(wanted(0, files)), used)
    return dict(fail=[d] if d else [], outcomes=[('graph', files)],
                shown='\n'.join(f'--- {p}\n{t}' for p, t in texts.items()))


def graphs(n, extra):
    """All acyclic include graphs: the contents of file i are up to n[i] items, includes name later files."""
    def contents(i):
        items = ('T', 'B', 'P') + extra + tuple(range(i + 1, 4))
        for k in range(0 if i else 1, n[i] + 1):
            yield from itertools.product(items, repeat=k)

    def reach(files, i):
        return any(f is not None and i in f for f in files)
    for f0 in contents(0):
        for f1 in (contents(1) if reach([f0], 1) else (None,)):
            for f2 in (contents(2) if reach([f0, f1], 2) else (None,)):
                for f3 in (contents(3) if reach([f0, f1, f2], 3) else (None,)):
                    yield f0, f1, f2, f3


def relative_ok(files, names):
    """A relative path in an included file is only unambiguous, if the file is in the directory of the specification."""
    for me, items in enumerate(files):
        if me and items and any(isinstance(x, int) and names[x - 1][1] == 'rel' for x in items):
            if names[me - 1][1] != 'rel' or '/' in names[me - 1][0]:
                return False
    return True


def paths(depth, alphabet):
    level = [((), 'O')]
    for _ in range(depth):
        nxt = []
        for p, s in level:
            for i in range(alphabet.get(s, 99) if alphabet else len(LINES[s])):
                nxt.append((p + (i,), LINES[s][i][1]))
        yield from nxt
        level = nxt


def run_case(case):
    return run_lines(case) if case[0] == 'lines' else run_graph(case)


def main():
    run = common.Run('C27')
    common.prepare(import_parser=False)
    rng = random.Random(common.SEED)
    cases, seen = [], set()
    dfull, dsmall = (5, 9) if common.THOROUGH else (4, 8)
    for p, s in itertools.chain(paths(dfull, None), paths(dsmall, SMALL)):
        if p in seen:
            continue
        seen.add(p)
        style = (len(seen) + common.SEED) % 4
        if len(p) == 1:
            style &= 1      # a text without line end may be the content of a symbolic link
        for st in ({style} if len(p) > 3 else {0, 1, style}):
            cases.append(('lines', p, st))
    n = len(cases)
    sizes = [((2, 1, 1, 1), ('D', 'S')), ((3, 1, 1, 1), ())]
    if common.THOROUGH:
        sizes += [((2, 2, 2, 1), ()), ((4, 1, 1, 1), ()), ((2, 2, 1, 2), ('S',))]
    k = 0
    seen = set()
    for size, extra in sizes:
        for files in graphs(size, extra):
            if files in seen:
                continue
            seen.add(files)
            k += 1
            redirects = (0, 1) if k % 5 == 0 else (0,)
            for ni, names in enumerate(NAMES):
                if not relative_ok(files, names):
                    continue
                for root in range(len(ROOTS)):
                    if not (k + ni + root) % (2 if common.THOROUGH else 7) or sum(len(f or ()) for f in files) <= 3:
                        for redirect in redirects:
                            cases.append(('graph', files, ni, (k + ni) % 3, root, (k + root) % 3 > 0, redirect))
    run.rule = ('documents = paths of the automaton of line kinds up to length %d (full alphabet: %d kinds) and %d (%d kinds); '
                'include graphs = all acyclic graphs of up to four files' %
                (dfull, sum(map(len, LINES.values())), dsmall, sum(SMALL.values())))
    run.extra.update(documents=n, include_graphs=len(seen), graph_runs=len(cases) - n)
    run.states = len(cases)
    run.transitions = len(cases) - 1
    for c in (cases[3], cases[n // 2], cases[-1]):
        run.sample(str(c))
    common.execute(run, cases, run_case, chunk=400)
    return run
