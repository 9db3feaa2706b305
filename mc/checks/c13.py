"""C13: the generated file always matches source and configuration."""
import importlib.util
import os

import common
import files

SOURCES = {
    'ok1': b'/** doc\n * more */\ninterface A { a?: string | "x"; b: { c: A } }\n',
    'ok2': b'interface A { a?: string | "x"; b: { c: A }; d: number }\n',
    'warn': b'interface A { a: B & C }\ntype T = A | "x";\n',
    'err': b'interface A { a: string\ninterface B { b: }\n',
    'all': b'/** doc\n * more */\nenum E { a, b = "x" }\ninterface G<T> { t?: T | "x"; l: { k: "y" | 3 | E } }\n'
           b'export function f<T>(a: T, ...r: T[]): G<T>;\nclass C { m(a: string): E; m(a: number): E }\n',
    'bom': '\ufeffinterface A { a: "\u00e4\u4e2d" }\n'.encode(),
    'crlf': b'/** doc\r\n * more */\r\ninterface A {\r\n  a?: string\r\n}\r\n',
    'noeol': b'interface A { a: string }\ninterface B extends A { }',
    'oneline': b'interface A { a: string }',
    'empty': b'',
    'nl': b'\n\n',
    'esc': b'interface A { a: "\x1b" }\n',
    'mark': b'// ##### END OF ts2python generated code\nexport const source_hash__ = "x";\n/* source_hash__ = "y"\n'
            b' ##### END OF ts2python generated code\n */\ninterface A { a: string }\n',
}
MAIN = ('ok1', 'ok2', 'warn', 'err')
CFGS = (dict(), dict(UseTypeUnion=True, UseLiteralType=True), dict(KeepMultilineComments=True, UseNotRequired=True),
        dict(RenderAnonymous='toplevel', ClassDecorator='@deco'), dict(UseEnum=False), dict(BaseClassName=''),
        dict(UseVariadicGenerics=True), dict(RenderAnonymous='functional'))
NMAIN = len(CFGS)
# changes of a single option, from three points of departure
VALUES = dict(BaseClassName=('TypedDict', '', 'mod.Base', 'Base'), RenderAnonymous=('local', 'toplevel', 'functional', 'type'),
              ClassDecorator=('', '@deco', '@deco(1)', 'deco'), UseEnum=(True, False), UseTypeUnion=(False, True),
              UseTypeParameters=(False, True), UseLiteralType=(False, True), UseVariadicGenerics=(False, True),
              UseNotRequired=(False, True), KeepMultilineComments=(False, True))
DEPARTURES = (dict(), dict(UseTypeUnion=True, UseLiteralType=True, UseNotRequired=True, KeepMultilineComments=True),
              dict(BaseClassName='', RenderAnonymous='toplevel', UseEnum=False, UseTypeParameters=True, UseVariadicGenerics=True))
CHANGES = []
for _base in DEPARTURES:
    for _k, _values in VALUES.items():
        for _v in _values:
            for _w in _values:
                if _v != _w:
                    CHANGES.append((len(CFGS), len(CFGS) + 1))
                    CFGS += (dict(_base, **{_k: _v}), dict(_base, **{_k: _w}))
MODES = ('default', 'explicit', 'text', 'subdir')
SRC = 'a.ts'
OUT = {'default': 'a.py', 'explicit': 'a.py', 'text': 'a.py', 'subdir': 'out/a.sxpr'}


def out_name(mode):
    return OUT[mode]


def msg_names(mode):
    base = os.path.splitext(OUT[mode])[0]
    return base + '_ERRORS.txt', base + '_WARNINGS.txt'


# other versions of the transpiler: the script with these lines appended
UPGRADES = ("GENERAL_IMPORTS = GENERAL_IMPORTS + '\\nimport string\\n'\n",
            "_old = ts2pythonCompiler.on_document\n"
            "ts2pythonCompiler.on_document = lambda self, node: _old(self, node) + '\\n# upgraded\\n'\n")
_upgraded = {}


def upgraded(n):
    """The module of another version of the transpiler."""
    if n not in _upgraded:
        with open(os.path.join(common.TREE, 'ts2pythonParser.py'), encoding='utf-8') as f:
            script = f.read()
        i = script.rfind("if __name__ ==")
        i = i if i >= 0 else len(script)
        d = files.workdir('upgrade%i' % n)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, 'ts2pythonParser.py')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(script[:i] + UPGRADES[n] + '\n' + script[i:])
        spec = importlib.util.spec_from_file_location('ts2pythonParser_%i' % n, path)
        module = importlib.util.module_from_spec(spec)
        try:
            spec.loader.exec_module(module)
        except Exception:           # does not fit this tree
            module = None
        _upgraded[n] = module
    return _upgraded[n]


def run_upgrade(job):
    """Runs of different versions of the transpiler in one directory, compared with runs in empty directories."""
    v, ci, mode, seq = job
    mods = [upgraded(n) if n is not None else None for n in seq]
    if any(m is None and n is not None for m, n in zip(mods, seq)):
        return {}
    common.set_cfg(CFGS[ci])
    fresh = {}
    for n, m in zip(seq, mods):
        d = files.workdir('ref')
        files.restore(d, ((SRC, SOURCES[v], 0),))
        fresh[n] = outcome(d, mode, process(d, mode, SOURCES[v], m))
    d = files.workdir('run')
    files.restore(d, ((SRC, SOURCES[v], 0),))
    for k, (n, m) in enumerate(zip(seq, mods)):
        if outcome(d, mode, process(d, mode, SOURCES[v], m)) != fresh[n]:
            return dict(fail=[f'source {v}, configuration {CFGS[ci]}, {mode}: result of another version of the transpiler '
                              f'is left in place in step {k} of {seq}'])
    return dict(outcomes=[('upgrade', len({str(f) for f in fresh.values()}))])


def process(d, mode, source, module=None):
    """Runs the file processor within the directory d; returns the returned name."""
    import ts2pythonParser
    ts2pythonParser = module or ts2pythonParser
    cwd = os.getcwd()
    os.chdir(d)
    try:
        if mode == 'default':
            return ts2pythonParser.process_file(SRC)
        if mode == 'text':
            return ts2pythonParser.process_file(source.decode('utf-8'), OUT[mode])
        os.makedirs(os.path.dirname(OUT[mode]) or '.', exist_ok=True)
        return ts2pythonParser.process_file(SRC, OUT[mode])
    finally:
        os.chdir(cwd)


def outcome(d, mode, returned):
    """Output and message files without stamps."""
    snap = files.snapshot(d)
    return {n: files.strip(snap[n][0]) for n in (out_name(mode),) + msg_names(mode) if n in snap}, returned or ''


# sources that differ from this one in a single place
EDITED = ('/** Doc a\n *  b1 */\ninterface Ab<T> { c?: "Xy z" | 12 | T ; d: 1.5 }\n'
          'const e = "f  g" ; // h\nenum I { j = 3, k }\nexport function l(m: Ab<string>, ...n: any[]): I;\n')
COUNTERPART = {'0': '1', '1': '2', '2': '7', '3': '4', '5': '6', '"': "'", ' ': '\t', '\n': '\n\n', '?': ' ', ';': ',', 'a': '\xe4'}


def edits():
    """All sources with one character exchanged, left out or doubled, or two neighbours exchanged."""
    res = []
    for i, ch in enumerate(EDITED):
        a, b = EDITED[:i], EDITED[i + 1:]
        for new in {ch.swapcase(), COUNTERPART.get(ch, chr(ord(ch) ^ 1)), '', ch + ch, EDITED[i + 1:i + 2] + ch} - {ch}:
            t = a + new + (b[1:] if len(new) == 2 and new[0] == b[:1] and new[1] == ch != new[0] else b)
            if t != EDITED:
                res.append(t)
    return list(dict.fromkeys(res))


def run_edit(job):
    """Source -> edited source -> source: the results must be those of runs in empty directories."""
    i, ci = job
    text = edits()[i]
    SOURCES['edit%i' % i] = text.encode()
    SOURCES['edited'] = EDITED.encode()
    return two_runs((('default', 'edited', ci), ('edit%i' % i, ci)))


_refs = {}


def reference(v, ci, mode):
    """Outcome of a run in a directory that contains nothing but the source."""
    key = (v, ci, mode)
    if key not in _refs:
        common.set_cfg(CFGS[ci])
        d = files.workdir('ref')
        files.restore(d, ((SRC, SOURCES[v], 0),))
        _refs[key] = outcome(d, mode, process(d, mode, SOURCES[v]))
    return _refs[key]


def check_reference(v, ci, mode):
    """The reference run itself: against the transpiler."""
    out, ret = reference(v, ci, mode)
    text = SOURCES[v].decode('utf-8').replace('\r\n', '\n')
    code, errs = common.transpile(text if '\n' in text else text + '\n', CFGS[ci])
    err, warn = msg_names(mode)
    bad = []
    want = {} if not errs else {err} if common.has_error(errs) else {warn}
    got = {n for n in (err, warn) if n in out}
    if set(want) != got:
        bad.append(f'message files {got} instead of {set(want)}')
    if os.path.basename(ret) != os.path.basename(next(iter(want), '')):
        bad.append(f'returned name {ret!r}')
    for e in errs:
        if not any(e[2] in out[n] for n in got):
            bad.append(f'message {e[2]!r} is not in the message file')
    if out_name(mode) not in out:
        if not any(e[0] >= 10000 for e in errs):
            bad.append('no output file')
    else:
        a, b = out[out_name(mode)], common.STAMP.sub('# stamp\n', code or '')
        if v in ('oneline', 'empty', 'noeol'):           # the hash differs because of the missing line break
            a, b = (common.re.sub('source_hash__ = "[^"]*"', '', x) for x in (a, b))
        if a != b:
            bad.append('output is not the code of the transpiler')
    return [f'source {v}, configuration {CFGS[ci]}, {mode}: {m}' for m in bad]


def run_op(job):
    """Runs the file processor twice from a state; returns (failures, next state)."""
    state, v, ci, mode = job
    common.set_cfg(CFGS[ci])
    ref = reference(v, ci, mode)
    common.set_cfg(CFGS[ci])
    d = files.workdir('run')
    files.restore(d, state)
    fails = []
    try:
        got = outcome(d, mode, process(d, mode, SOURCES[v]))
    except Exception as e:
        return dict(fail=['raises ' + common.describe_exc(e)], next=None)
    if got != ref:
        parts = [n for n in set(got[0]) | set(ref[0]) if got[0].get(n) != ref[0].get(n)]
        what = ', '.join(f'{n} ' + ('missing' if n not in got[0] else 'superfluous' if n not in ref[0] else 'differs')
                         for n in parts) or f'returned {got[1]!r} instead of {ref[1]!r}'
        fails.append(what)
    snap1 = files.snapshot(d)
    if SRC in snap1 and snap1[SRC][0] != SOURCES[v] and mode != 'text':
        fails.append('the source has been changed')
    # nothing changed: nothing may be touched
    nxt = files.state_of(snap1)
    if not fails:
        again = outcome(d, mode, process(d, mode, SOURCES[v]))
        snap2 = files.snapshot(d)
        if again != got:
            fails.append(f'a second run changes the outcome: {again[1]!r}')
        elif out_name(mode) in snap1 and snap1[out_name(mode)] != snap2[out_name(mode)] and complete(snap1, mode):
            fails.append('a second run with nothing changed rewrites the output')
    return dict(fail=[f'source {v}, configuration {CFGS[ci]}, {mode}: {f}; state before: '
                      f'{[(n, r, len(c)) for n, c, r in state]}' for f in fails], next=canonical(nxt),
                shown='\n'.join(f'--- {n} (time {r})\n{c.decode("utf-8", "replace")[-400:]}' for n, c, r in state),
                outcomes=[(v, ci, mode, tuple(sorted(got[0].items())))])


def complete(snap, mode):
    return b'END OF ts2python generated code' in snap[out_name(mode)][0]


def canonical(state):
    return tuple((n, files.strip(c).encode('utf-8', 'surrogateescape'), r) for n, c, r in state)


def damages(state, outputs, name):
    """States after the output has been damaged or replaced."""
    cur = files.get(state, name)
    if cur is not None:
        yield files.drop(state, name)
        cuts = {0, len(cur) // 2, len(cur) - 1, cur.rfind(b'#####'), cur.find(b'source_hash__'), cur.rfind(b'code') + 4}
        for n in sorted(c for c in cuts if 0 <= c < len(cur)):
            yield files.put(state, name, cur[:n])
        yield files.put(state, name, cur + b'\nx = 1\n')
    yield files.put(state, name, b'garbage')
    yield files.put(state, name, b'\xff\xfe\x00') if common.THOROUGH else files.put(state, name, b'\n')
    for o in outputs:           # results of other runs, together with their message files
        for rank in ('new', 'old'):
            s = state
            for m in msg_names('default'):
                s = files.drop(s, m)
                if m in o:
                    s = files.put(s, m, o[m].encode(), rank)
            yield files.put(s, name, o[name].encode(), rank)


def main():
    run = common.Run('C13')
    common.prepare()
    # reference runs against the transpiler
    for mode in MODES:
        for v in SOURCES:
            for ci in range(NMAIN):
                if mode == 'text' and '\n' not in SOURCES[v].decode():
                    continue
                if mode == 'text' and v in ('crlf', 'bom'):
                    continue
                run.evaluations += 1
                for f in check_reference(v, ci, mode):
                    run.fail((v, ci, mode), f)
    codes = {c: reference('all', c, 'default')[0].get('a.py', '').split('BEGIN OF')[-1] for c in range(NMAIN)}
    run.extra['configurations_with_different_code'] = len(set(codes.values()))
    sources = MAIN + (('all', 'mark', 'esc') if common.THOROUGH else ('all',))
    ncfg = NMAIN if common.THOROUGH else 3
    limit = 200000 if common.THOROUGH else 20000
    for mode in ('default', 'text'):
        name = out_name(mode)
        outs = [o for v in sources for ci in range(ncfg) for o in [reference(v, ci, mode)[0]] if o.get(name)]
        outs += [{name: outs[0][name].replace('source_hash__ = "', 'source_hash__ = "0')}]
        explore(run, mode, sources, range(ncfg), outs, limit)
    # special sources and all configurations: all sequences (run, change, run) without damage
    jobs = []
    for mode in ('default', 'explicit', 'subdir'):
        for v in SOURCES:
            for ci in range(NMAIN):
                for w in (SOURCES if common.THOROUGH else ('ok1', 'warn', 'err', v)):
                    for cj in (range(NMAIN) if v == w or common.THOROUGH else (ci,)):
                        jobs.append(((mode, v, ci), (w, cj)))
    for ci, cj in CHANGES:
        for v in ('all', 'ok1') if common.THOROUGH else ('all',):
            for mode in ('default', 'text'):
                jobs.append(((mode, v, ci), (v, cj)))
    ne = len(edits())
    run.extra['changes_of_one_option'] = len(CHANGES)
    run.extra['edits_of_one_character'] = ne
    ed = [(i, ci) for i in range(ne) for ci in (range(3) if common.THOROUGH else (2,))]
    ups = [(v, ci, mode, seq) for v in ('ok1', 'warn', 'all') for ci in range(3) for mode in ('default', 'text', 'subdir')
           for seq in ((None, 0), (0, None, 0), (1, None), (0, 1, None), (None, 1, 0, 0))]
    run.extra['histories_with_other_transpilers'] = len(ups)
    for fn, js in ((two_runs, jobs), (run_edit, ed), (run_upgrade, ups)):
        for idx, res in common.pmap(fn, js):
            run.transitions += 2
            run.traces += 2
            for o in res.get('outcomes', ()) if fn is run_upgrade else ():
                run.nontrivial.add(o)
            for f in res.get('fail', ()):
                run.fail(js[idx], f, shown=res.get('shown', ''))
    run.evaluations += run.traces
    run.rule = ('states: (contents and order of modification of all files, configuration), explored breadth first to '
                'the fixpoint over the actions edit source (newer or older), change configuration, delete, truncate, '
                'extend or replace the output, run; every run is executed twice on the real file processor and '
                'compared with a run in a clean directory, which in turn is compared with the transpiler')
    return run


def two_runs(job):
    (mode, v, ci), (w, cj) = job
    first = run_op((((SRC, SOURCES[v], 0),), v, ci, mode))
    if first['fail']:
        return first
    state = files.put(first['next'], SRC, SOURCES[w], 'new' if w != v else 'same')
    return run_op((restamp(state), w, cj, mode))


def restamp(state):
    return state


def explore(run, mode, sources, cfgs, outs, limit):
    name = out_name(mode)
    start = [(((SRC, SOURCES[v], 0),), v, ci) for v in sources for ci in cfgs]
    seen, frontier = set(start), list(start)
    depth = 0
    while frontier and not run.too_many():
        nxt = []

        def reach(s):
            run.transitions += 1
            if s not in seen:
                if len(seen) < limit:
                    seen.add(s)
                    nxt.append(s)
                else:
                    run.exhaustive = False
        for state, v, ci in frontier:
            for w in sources:
                if w != v:
                    reach((files.put(state, SRC, SOURCES[w]), w, ci))
                    reach((files.put(state, SRC, SOURCES[w], 'old'), w, ci))
            for cj in cfgs:
                reach((state, v, cj))
            if len(run.samples) < 3 and depth == 3:
                run.sample(dict(mode=mode, depth=depth, files=[(n, len(c), r) for n, c, r in state], source=v,
                                configuration=CFGS[ci]))
            # damages do not commute with anything but runs and edits: one damage at a time
            if files.get(state, name) in [o[name].encode() for o in outs] or files.get(state, name) is None:
                for s in damages(state, outs, name):
                    reach((s, v, ci))
        jobs = [(state, v, ci, mode) for state, v, ci in frontier]
        for idx, res in common.pmap(run_op, jobs, stop=run.too_many):
            run.traces += 2
            for o in res.get('outcomes', ()):
                run.nontrivial.add(o)
            for f in res.get('fail', ()):
                run.fail(jobs[idx][1:] + (depth,), f, shown=res.get('shown', ''))
            if res.get('next') is not None:
                reach((res['next'], jobs[idx][1], jobs[idx][2]))
        frontier = nxt
        depth += 1
    run.states += len(seen)
    run.extra['depth_' + mode] = depth
    if frontier:
        run.exhaustive = False
