"""C16: command line switches mean what the documentation says."""
import io
import itertools
import os
import subprocess
import sys

import common
import files
from checks import c11, c13

RICH = (b'/** doc\n * more */\nenum E { a, b = "x" }\ninterface G<T> { t?: T | "x"; u: string | number;\n'
        b'  l: { k: "y" | 3 | E };\n  w?: [string, number]; x: Array<string | null>; y?: { p?: null } }\n'
        b'type U = { m: number } | "lit";\nexport const c = 3;\n'
        b'function f(a: { n: 1 | 2 }, ...r: string[]): void;\n')
PLAIN = b'interface A { a: string }\n'
SOURCES = dict(rich=RICH, plain=PLAIN, err=c13.SOURCES['err'], warn=c13.SOURCES['warn'], empty=b'\n',
               name=b'interface B { b: number }')

# switch -> [(arguments, effect)], the effect as documented
LEVEL = {'3.7': {}, '3.7.3': {}, '3.8': dict(UseLiteralType=True), '3.9': dict(UseLiteralType=True),
         '3.10': dict(UseLiteralType=True, UseTypeUnion=True),
         '3.11': dict(UseLiteralType=True, UseTypeUnion=True, UseNotRequired=True, UseVariadicGenerics=True)}
LEVEL['3.12'] = dict(LEVEL['3.11'], UseTypeParameters=True)
LEVEL['3.13.1'] = LEVEL['4.0'] = LEVEL['3.12']
PEP = {'435': 'UseEnum', '584': 'UseLiteralType', '586': 'UseLiteralType', '604': 'UseTypeUnion',
       '646': 'UseVariadicGenerics', '655': 'UseNotRequired'}
SWITCHES = {
    'c': [((v,), e) for v, e in LEVEL.items()],
    'b': [((v,), dict(BaseClassName=v)) for v in ('BaseModel', 'TypedDict', 'dict')],
    'a': [((v,), dict(RenderAnonymous=v)) for v in ('local', 'toplevel', 'functional')],
    'd': [((v,), dict(ClassDecorator=v)) for v in ('@dataclass', 'dataclass', '@a.b(c = 1)', '@f(lambda x: "a b" if x else 1)')],
    'p': [((t + n,), {k: not t}) for n, k in PEP.items() for t in ('', '~')],
    'k': [((), dict(KeepMultilineComments=True))],
    'v': [((), {})],
    'D': [((), {})],
    'singlethread': [((), {})],
    'o': [(('dest',), {}), (('out',), {})],
}
LONG = dict(c='compatibility', b='base', a='anonymous', d='decorator', p='peps', k='comments', v='verbose', D='debug',
            o='out', singlethread='singlethread')
BAD = (['-c', '3.6'], ['-c', '2.7'], ['-c', '3'], ['-c', 'abc'], ['-p', '999'], ['-p', '604', '~999'], ['-p', '~~604'],
       ['-p', ''], ['-p', '4 35'], ['-a', 'nowhere'], ['--no-such-switch'], ['-k', 'x.ts', '-c'], ['-o'], ['-p'])
USES = {    # files of the working directory, arguments
    'single': ({'x.ts': 'rich'}, ['x.ts']),
    'other': ({'sub/y.d.ts': 'rich'}, ['sub/y.d.ts']),
    'other-dots': ({'my.ts.files/a.ts.py.ts': 'plain'}, ['my.ts.files/a.ts.py.ts']),
    'other-upper': ({'X.TS': 'plain'}, ['X.TS']),
    'other-blank': ({'a b/\u00e4 (1).ts': 'warn'}, ['a b/\u00e4 (1).ts']),
    'other-hidden': ({'e/.x.ts': 'err'}, ['e/.x.ts']),
    'batch-dots': ({'my.ts.files/a.ts.py.ts': 'plain', 'X.TS': 'warn', 'a b/\u00e4 (1).ts': 'err'},
                   ['a b/\u00e4 (1).ts', 'my.ts.files/a.ts.py.ts', 'X.TS']),
    'single-err': ({'x.ts': 'err'}, ['x.ts']),
    'single-warn': ({'x.ts': 'warn'}, ['x.ts']),
    'batch': ({'x.ts': 'rich', 'sub/y.ts': 'plain'}, ['x.ts', 'sub/y.ts']),
    'batch-err': ({'x.ts': 'rich', 'y.ts': 'err', 'z.ts': 'warn'}, ['x.ts', 'y.ts', 'z.ts']),
    'batch-err-last': ({'x.ts': 'rich', 'y.ts': 'err', 'z.ts': 'warn'}, ['x.ts', 'z.ts', 'y.ts']),
    'batch-err-first': ({'x.ts': 'rich', 'y.ts': 'err', 'z.ts': 'warn'}, ['y.ts', 'z.ts', 'x.ts']),
    'batch-warn': ({'x.ts': 'rich', 'z.ts': 'warn'}, ['x.ts', 'z.ts']),
    'directory': ({'d/x.ts': 'rich', 'd/y.ts': 'plain', 'd/e/z.ts': 'plain'}, ['d']),
    'directory-odd': ({'d/_x.ts': 'rich', 'd/.h.ts': 'plain', 'd/B.TS': 'warn', 'd/c d.ts': 'plain', 'd/e.d.ts': 'plain',
                       'd/__init__.ts': 'plain', 'd/~f.ts': 'plain', 'd/g.ts.ts': 'plain', 'd/h-1.ts': 'err'}, ['d']),
    'directory-err': ({'d/x.ts': 'err', 'd/y.ts': 'warn'}, ['d']),
    'directory-warn': ({'d/x.ts': 'warn'}, ['d/']),
    'directory-one': ({'d/x.ts': 'rich'}, ['d']),
}


def effect(switches):
    """The configuration a set of switches selects, by the documentation."""
    cfg = {}
    for s in ('c', 'b', 'a', 'd', 'p', 'k'):
        for t, k in switches:
            if t == s:
                cfg.update(SWITCHES[s][k][1])
    return cfg


def arguments(switches, use, style):
    """A command line; style: 0 short, files first; 1 long, 2 joined values, 3 files last."""
    names = USES[use][1]
    opts = []
    for s, k in switches:
        vals = SWITCHES[s][k][0]
        if style in (1, 2) or len(s) > 1:
            opts += ['--' + LONG[s] + '=' + vals[0]] if vals and style == 2 else ['--' + LONG[s], *vals]
        else:
            opts += ['-' + s, *vals]
    if style == 3:
        return opts + ['--'] + names
    return names + opts


def tool(d, argv, real=False):
    """Runs the command line tool in the directory d; returns (status, output)."""
    if real:
        p = subprocess.run([sys.executable, '-B', os.path.join(common.TREE, 'ts2pythonParser.py'), *argv], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        return p.returncode, p.stdout

    def run():
        import traceback
        import ts2pythonParser
        os.chdir(d)
        sys.argv = ['ts2pythonParser.py', *argv]
        sys.stdout = sys.stderr = out = io.StringIO()
        try:
            ts2pythonParser.main()
            rc = 0
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            if rc and not isinstance(e.code, int):
                print(e.code)
        except Exception:
            traceback.print_exc(file=out)
            rc = 1
        return rc, out.getvalue()
    return c11.in_child(run)


_library = {}


def library(name, doc, cfg, out):
    """Files and returned name of the library call for a single file."""
    key = name, doc, tuple(sorted(cfg.items())), out
    if key not in _library:
        d = files.workdir('library')

        def run():
            import ts2pythonParser
            common.set_cfg({})
            from DHParser.configuration import set_config_value
            for k, v in cfg.items():
                set_config_value('ts2python.' + k, v, allow_new_key=True)
            os.chdir(d)
            return ts2pythonParser.process_file(name, out)
        files.restore(d, ((name, SOURCES[doc], 0),))
        os.makedirs(os.path.join(d, os.path.dirname(out)), exist_ok=True)
        ret = c11.in_child(run)
        _library[key] = {n: files.strip(c) for n, (c, _, _) in files.snapshot(d).items() if n != name}, ret
    return _library[key]


def expected(use, cfg, outdir):
    """(files, returned names) of the library."""
    docs, names = USES[use]
    if use.startswith('directory'):
        names = sorted(n for n in docs if os.path.dirname(n) == names[0].rstrip('/'))
    res, rets = {}, []
    for name in names:
        if outdir:
            out = os.path.join(outdir, os.path.splitext(os.path.basename(name))[0] + '.py')
        else:
            out = name[:-3] + '.py'
        f, r = library(name, docs[name], cfg, out)
        res.update(f)
        if r:
            rets.append(r)
    return res, rets


def check(switches, use, style, real=False):
    docs = USES[use][0]
    cfg = effect(switches)
    argv = arguments(switches, use, style)
    kinds = [s for s, _ in switches]
    outdir = ''
    if 'o' in kinds:
        outdir = [SWITCHES[s][k][0][0] for s, k in switches if s == 'o'][0]
    elif not use.startswith(('single', 'other')):
        outdir = 'out'
    want, rets = expected(use, cfg, outdir)
    d = files.workdir('tool')
    files.restore(d, tuple((n, SOURCES[v], 0) for n, v in docs.items()))
    rc, text = tool(d, argv, real)
    got = {n: files.strip(c) for n, (c, _, _) in files.snapshot(d).items() if n not in docs and
           not n.startswith('LOGS')}
    what = f'arguments {argv} with the files {docs}'
    fails = []
    if 'D' in kinds:    # the diagnostics may contain more when debugging
        want = {n: c for n, c in want.items() if n.endswith('.py')}
        got = {n: c for n, c in got.items() if n.endswith('.py')}
    if got != want:
        diff = [n for n in sorted(set(got) | set(want)) if got.get(n) != want.get(n)]
        line = ''
        for n in diff[:1]:
            a, b = [(x.get(n) or '').split('\n') for x in (got, want)]
            line = next((f' ({p!r} instead of {q!r})' for p, q in itertools.zip_longest(a, b) if p != q), '')
        fails.append(f'{what}: output {diff} differs from the library call with {cfg}{line}; the tool printed: '
                     f'{text[-300:]!r}')
    errors = any(r.endswith('_ERRORS.txt') for r in rets)
    if outdir and (rc != 0) != errors or not outdir and rc != 0 and not errors:
        fails.append(f'{what}: exit status {rc} although the messages are in {rets}; printed: {text[-300:]!r}')
    if outdir:
        missing = [r for r in rets if r not in text]
    else:
        missing = [l for r in rets for l in want.get(r, '').split('\n') if l.strip() and l.strip() not in text]
    if missing and not fails:
        fails.append(f'{what}: not reported on the standard output: {missing[:3]}')
    return fails


def check_bad(bad, others, real=False):
    d = files.workdir('tool')
    files.restore(d, (('x.ts', RICH, 0),))
    argv = ['x.ts'] + arguments(others, 'single', 1)[1:] + list(bad)
    rc, text = tool(d, argv, real)
    left = [n for n in files.snapshot(d) if n.endswith('.py')]
    what = f'invalid arguments {argv}'
    fails = []
    if rc == 0:
        fails.append(f'{what}: exit status 0, printed {text[-200:]!r}')
    if not text.strip():
        fails.append(f'{what}: no message')
    if left:
        fails.append(f'{what}: wrote {left}')
    return fails


def check_place(kind):
    """The output directory exists already (as a directory or as a file)."""
    d = files.workdir('tool')
    state = [('x.ts', PLAIN, 0), ('y.ts', RICH, 0)]
    if kind == 'file':
        state.append(('dest', b'content', 0))
    files.restore(d, tuple(state))
    if kind == 'directory':
        os.mkdir(os.path.join(d, 'dest'))
    rc, text = tool(d, ['x.ts', 'y.ts', '-o', 'dest'])
    snap = files.snapshot(d)
    if kind == 'file':
        if rc == 0 or not text.strip() or snap['dest'][0] != b'content':
            return [f'the output directory is a file: exit status {rc}, printed {text!r}, content {snap["dest"][0]!r}']
    elif rc or not {'dest/x.py', 'dest/y.py'} <= set(snap):
        return [f'the output directory exists: exit status {rc}, files {sorted(snap)}']
    return []


def run_case(case):
    kind, items = case
    fails, n = [], 0
    for item in items:
        n += 1
        if kind == 'bad':
            fails += check_bad(*item)
        elif kind == 'place':
            fails += check_place(item)
        else:
            fails += check(*item)
        if len(fails) > 2:
            break
    return dict(fail=fails, n=n, outcomes=[repr(i) for i in items])


def combinations(size):
    """All sets of up to ``size`` switches with all their values."""
    options = [(s, k) for s in SWITCHES for k in range(len(SWITCHES[s]))]
    for n in range(size + 1):
        for c in itertools.combinations(options, n):
            kinds = [s for s, _ in c]
            names = {v for s, k in c if s == 'p' for v in SWITCHES['p'][k][1]}
            if len(set(kinds) - {'p'}) == len([s for s in kinds if s != 'p']) and len(names) == kinds.count('p'):
                yield c


def main():
    run = common.Run('C16')
    common.prepare()
    items = []
    combis = list(combinations(3))
    for i, c in enumerate(combis):
        if common.THOROUGH:
            for j in range(4):
                items.append((c, ('single', 'other', 'batch', 'directory-one')[(i + j) % 4], j))
        elif len(c) < 3:
            items.append((c, ('single', 'other', 'batch', 'directory-one')[i % 4], (i // 4) % 4))
        elif (i + common.SEED) % 4 == 0:
            items.append((c, ('single', 'other')[i // 4 % 2], (i // 8) % 4))
    for i, c in enumerate(combinations(2)):
        uses = list(USES)
        if len(c) < 2:
            items += [(c, u, s) for u in uses for s in ((0, 1, 2, 3) if common.THOROUGH or not c else ((i + len(u)) % 4,))]
        elif common.THOROUGH:
            items += [(c, u, (i + k) % 4) for k, u in enumerate(uses)]
    cases = [('combi', tuple(items[k:k + 12])) for k in range(0, len(items), 12)]
    cases += [('combi', ((c, u, (k + j) % 4, True),)) for k, (c, u) in enumerate((
        ((), 'single'), ((('c', 5),), 'single'), ((('p', 6), ('a', 1)), 'other'), ((('o', 0), ('k', 0)), 'batch'),
        ((('c', 4), ('p', 7)), 'batch-err'), ((('v', 0),), 'directory'), ((('singlethread', 0),), 'batch-warn')))
        for j in range(4 if common.THOROUGH else 1)]
    cases += [('bad', ((b, (), True),)) for b in BAD[:8:3]]
    small = list(combinations(1))
    cases += [('bad', tuple((b, o) for o in small if not o or '-' + o[0][0] not in b)) for b in BAD]
    cases.append(('place', ('file', 'directory', 'none')))
    run.states = len(combis)
    run.exhaustive = common.THOROUGH
    common.execute(run, cases, run_case, chunk=1)
    run.transitions = run.traces
    for c in (cases[0], cases[-1], cases[5]):
        run.sample(dict(kind=c[0], case=c[1][:2]))
    run.rule = ('states: sets of up to three switches with all their values; transitions: runs of the command line '
                'tool (single file, several files, directories, switches in short, long and joined spelling, before '
                'and behind the files), compared with library calls under the documented configuration; '
                + ('' if common.THOROUGH else 'of the sets of three switches one in four is run, '
                   'the others in thorough'))
    return run
