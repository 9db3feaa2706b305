"""Shared infrastructure of the model-checking framework.

* ``prepare()`` copies the working tree of the repository into a private scratch
  directory, regenerates the parser there if (and only if) the grammar file has
  changed - exactly what the repository's own build does - and puts the copy on
  ``sys.path``.  Nothing is ever written into the repository itself.
* ``Run`` collects coverage numbers, violations and known findings, and writes
  the evidence file.
* ``pmap`` executes a list of cases on forked workers.
"""

import atexit
import json
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN_FILE = os.path.join(VERIF, 'known_findings.txt')
NPROC = int(os.environ.get('VERIF_NPROC', '0')) or (os.cpu_count() or 4)
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
THOROUGH = TIER == 'thorough'

_main_pid = os.getpid()
SCRATCH = ''
TREE = ''


def _cleanup():
    if os.getpid() == _main_pid and SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def prepare(import_parser=True):
    """Copies the tree under test; returns the path of the copy."""
    global SCRATCH, TREE
    if TREE:
        return TREE
    SCRATCH = tempfile.mkdtemp(prefix='tsverif_')
    atexit.register(_cleanup)

    def _term(signum, frame):
        sys.exit(2)
    signal.signal(signal.SIGTERM, _term)
    TREE = os.path.join(SCRATCH, 'tree')
    os.mkdir(TREE)
    skip = {'.git', 'REPORT', 'LOGS', '__pycache__', '.pytest_cache', 'tests', 'docs'}
    for entry in sorted(os.listdir(REPO)):
        if entry in skip:
            continue
        src, dst = os.path.join(REPO, entry), os.path.join(TREE, entry)
        if os.path.isdir(src):
            shutil.copytree(src, dst, symlinks=True,
                            ignore=shutil.ignore_patterns(*skip))
        else:
            shutil.copy2(src, dst)
    sys.path.insert(0, TREE)
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    _regenerate()
    work = os.path.join(SCRATCH, 'work')
    os.mkdir(work)
    os.chdir(work)
    if import_parser:
        import ts2pythonParser  # noqa: F401
        assert os.path.dirname(os.path.abspath(ts2pythonParser.__file__)) == TREE
    return TREE


def _regenerate():
    """Brings the parser up to date with the grammar (what build.sh does)."""
    from DHParser import dsl
    from DHParser.ebnf import grammar_changed
    ebnf = os.path.join(TREE, 'ts2python.ebnf')
    parser = os.path.join(TREE, 'ts2pythonParser.py')
    if not os.path.exists(ebnf):
        return
    with open(parser, encoding='utf-8') as f:
        text = f.read()
    m = re.search(r'source_hash__ = "([\w.!? ]*)"', text)
    from DHParser.toolkit import md5
    from DHParser.versionnumber import __version__
    with open(ebnf, encoding='utf-8') as f:
        g = f.read()
    if m and m.group(1) == md5(g, __version__):
        return
    so = sys.stdout
    try:
        sys.stdout = sys.stderr
        ok = dsl.recompile_grammar(ebnf, parser, force=True)
    finally:
        sys.stdout = so
    if not ok:
        raise RuntimeError('grammar of the tree under test does not compile')


# ---------------------------------------------------------------- transpiling

CFG_KEYS = ('BaseClassName', 'RenderAnonymous', 'ClassDecorator', 'UseEnum', 'UseTypeUnion',
            'UseLiteralType', 'UseVariadicGenerics', 'UseNotRequired', 'KeepMultilineComments')
DEFAULTS = dict(BaseClassName='TypedDict', RenderAnonymous='local', ClassDecorator='',
                UseEnum=True, UseTypeUnion=False, UseLiteralType=False,
                UseVariadicGenerics=False, UseNotRequired=False, KeepMultilineComments=False)


def set_cfg(cfg=None):
    """Sets the configuration of the transpiler in this thread (full state)."""
    from DHParser.configuration import set_config_value
    full = dict(DEFAULTS)
    if cfg:
        full.update(cfg)
    for k in CFG_KEYS:
        set_config_value('ts2python.' + k, full[k], allow_new_key=True)
    return full


def transpile(source, cfg=None):
    """Returns (code, [(error_code, pos, message), ...]) of the real transpiler."""
    import ts2pythonParser
    set_cfg(cfg)
    if '\n' not in source:
        source += '\n'
    result, errors = ts2pythonParser.compile_src(source)
    return result, [(int(e.code), int(e.pos), e.message) for e in errors]


def has_error(errors):
    return any(e[0] >= 1000 for e in errors)


STAMP = re.compile(r'# Generated by ts2python version [^\n]*\n')


def strip_stamp(code):
    return STAMP.sub('', code or '')


def body(code):
    """The part of the output between the BEGIN and END markers."""
    i = code.find('##### BEGIN OF ts2python generated code')
    j = code.rfind('##### END OF ts2python generated code')
    if i < 0 or j < 0:
        return code
    return code[i + len('##### BEGIN OF ts2python generated code'):j].strip()


_modcount = 0


def load_module(code, name=None):
    """Executes generated code as a registered module (like an import)."""
    global _modcount
    _modcount += 1
    if name is None:
        name = f'generated_{os.getpid()}_{_modcount}'
    mod = types.ModuleType(name)
    mod.__file__ = name + '.py'
    sys.modules[name] = mod
    try:
        exec(code if isinstance(code, types.CodeType) else compile(code, name + '.py', 'exec'), mod.__dict__)
    except BaseException:
        del sys.modules[name]
        raise
    return mod


def unload(mod):
    sys.modules.pop(mod.__name__, None)


# ---------------------------------------------------------------- executing cases

class CaseTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout()


CASE_CPU_LIMIT = 30.0


def guarded(func, case):
    """Runs func(case) -> dict; adds protection against endless loops."""
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        return func(case)
    except CaseTimeout:
        return {'fail': [f'no termination within {CASE_CPU_LIMIT} s of processor time']}
    except Exception as e:
        return {'fail': [f'evaluation of the result failed: {describe_exc(e)}'],
                'shown': traceback.format_exc()}
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for fr in reversed(tb):
        if TREE and fr.filename.startswith(TREE):
            where = f' at {os.path.basename(fr.filename)}:{fr.name}'
            break
    return f'{type(e).__name__}: {str(e)[:200]}{where}'


def _chunk_worker(args):
    func, chunk = args
    out = []
    for idx, case in chunk:
        out.append((idx, guarded(func, case)))
    return out


def pmap(func, cases, chunk=None, stop=None, nproc=None):
    """Executes func on all cases with forked workers; yields (index, result)
    in order of completion.  ``stop()`` is polled to end early."""
    cases = list(enumerate(cases))
    nproc = nproc or NPROC
    if not cases:
        return
    if chunk is None:
        chunk = max(1, min(200, len(cases) // (nproc * 8) + 1))
    chunks = [(func, cases[i:i + chunk]) for i in range(0, len(cases), chunk)]
    if nproc == 1 or len(cases) <= 2:
        for c in chunks:
            for item in _chunk_worker(c):
                yield item
            if stop and stop():
                return
        return
    from multiprocessing.connection import Pipe, wait
    sys.stdout.flush()
    sys.stderr.flush()
    workers = {}            # connection -> (pid, number of the chunk being processed)
    todo = list(range(len(chunks)))[::-1]
    try:
        while todo or any(c is not None for _, c in workers.values()):
            while todo and len(workers) < nproc:
                conn, theirs = Pipe()
                pid = os.fork()
                if pid == 0:
                    os.setpgid(0, 0)
                    _serve(theirs, chunks, [conn] + list(workers))
                try:
                    os.setpgid(pid, pid)        # kill it together with its children
                except OSError:
                    pass
                theirs.close()
                c = todo.pop()
                workers[conn] = (pid, c)
                conn.send(c)
            for conn in wait([w for w, (_, c) in workers.items() if c is not None]):
                pid, c = workers[conn]
                try:
                    res = conn.recv()
                except (EOFError, OSError):
                    os.waitpid(pid, 0)
                    del workers[conn]
                    conn.close()
                    raise RuntimeError(f'a worker process died while processing {str(chunks[c][1])[:300]}')
                if todo:
                    nxt = todo.pop()
                    workers[conn] = (pid, nxt)
                    conn.send(nxt)
                else:
                    workers[conn] = (pid, None)
                for item in res:
                    yield item
                if stop and stop():
                    return
    finally:
        for conn, (pid, c) in workers.items():
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            conn.close()


def _serve(conn, chunks, others):
    """Body of a worker process."""
    try:
        for o in others:
            o.close()
        while True:
            conn.send(_chunk_worker(chunks[conn.recv()]))
    except (EOFError, BrokenPipeError):
        pass
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(1)


# ---------------------------------------------------------------- bookkeeping

def load_known(prop):
    """Known findings of a property: list of (key, text)."""
    res = []
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE, encoding='utf-8') as f:
            for line in f:
                m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', line.strip())
                if m and m.group(1) == prop:
                    res.append((m.group(2), m.group(3)))
    return res


class Run:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.rule = ''
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.known = dict(load_known(prop))
        self.known_hit = {}
        self.exhaustive = True

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def fail(self, case, messages, key=None, shown=''):
        """Registers a failing case; key identifies known findings."""
        if key is not None and key in self.known:
            self.known_hit.setdefault(key, 0)
            self.known_hit[key] += 1
            return
        self.violations.append((case, messages, key, shown))

    def too_many(self):
        return len(self.violations) >= 25 and not os.environ.get('VERIF_TRIAGE')

    def triage(self):
        groups = {}
        for case, msg, key, shown in self.violations:
            g = re.sub(r"'[^']*'|[A-Z]\w*\.\w+|\d+", '*', str(msg))[:int(os.environ.get('VERIF_TRIAGE_LEN', '90'))]
            groups.setdefault(g, []).append((case, msg, shown))
        for g, items in sorted(groups.items(), key=lambda kv: -len(kv[1]))[:40]:
            items.sort(key=lambda v: len(json.dumps(v[0], default=str)))
            print('=' * 70)
            print(len(items), g)
            print('   ', items[0][1][:400])
            print('    case:', items[0][0])
            print(items[0][2][:900])

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {}
        if self.level == 'model_checking':
            cov.update(states=self.states, transitions=self.transitions,
                       traces_validated_against_impl=self.traces)
        else:
            cov.update(evaluations=self.evaluations,
                       distinct_nontrivial=len(self.nontrivial), rule=self.rule)
        cov['samples'] = self.samples
        cov['distinct_outcomes'] = len(self.nontrivial)
        cov['exhaustive'] = self.exhaustive and not self.violations
        if self.rule:
            cov['rule'] = self.rule
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 3),
                  violations=len(self.violations))
        with open(os.path.join(EVIDENCE, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for key, n in sorted(self.known_hit.items()):
            print(f'KNOWN-FINDING: property={self.prop} {self.known[key]} [{key}, {n} case(s)]')
        print(f'{self.prop}: states={self.states} transitions={self.transitions} '
              f'traces={self.traces} evaluations={self.evaluations} '
              f'outcomes={len(self.nontrivial)} violations={len(self.violations)} '
              f'wall={time.time() - self.t0:.1f}s')
        if os.environ.get('VERIF_TRIAGE'):
            self.triage()
        if self.violations:
            rdir = os.path.join(EVIDENCE, 'replays')
            os.makedirs(rdir, exist_ok=True)
            # simplest first
            self.violations.sort(key=lambda v: len(json.dumps(v[0], default=str)))
            for i, (case, messages, key, shown) in enumerate(self.violations[:5]):
                path = os.path.join(rdir, f'{self.prop}-{i}.json')
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, case=case, messages=messages,
                                   key=key, shown=shown), f, indent=1, default=str)
                print(f'--- violation {i}: {str(messages)[:600]}')
                if shown:
                    print(shown[:1500])
                print(f'VIOLATION property={self.prop} replay={path}')
            sys.stdout.flush()
            return 1
        sys.stdout.flush()
        return 0


def execute(run, cases, run_case, chunk=None, shown=None):
    """Replays every case (state of the explored space) on the implementation."""
    cases = list(cases)
    for idx, res in pmap(run_case, cases, chunk=chunk, stop=run.too_many):
        run.traces += res.get('n', 1)
        run.evaluations += res.get('n', 1)
        for o in res.get('outcomes', ()):
            run.nontrivial.add(o)
        for f in res.get('fail', ()):
            key = None
            if isinstance(f, tuple) or isinstance(f, list):
                key, f = f
            run.fail(cases[idx], f, key, shown(cases[idx]) if shown else res.get('shown', ''))
    return run


def bfs(initial, successors, canon=None, max_depth=None, max_states=None):
    """Explicit-state exploration. Returns (states in BFS order, transitions, complete)."""
    canon = canon or (lambda s: s)
    seen = {}
    order = []
    transitions = 0
    frontier = []
    for s in initial:
        k = canon(s)
        if k not in seen:
            seen[k] = 0
            order.append(s)
            frontier.append(s)
    depth = 0
    complete = True
    while frontier:
        if max_depth is not None and depth >= max_depth:
            break
        nxt = []
        for s in frontier:
            for t in successors(s):
                transitions += 1
                k = canon(t)
                if k not in seen:
                    if max_states is not None and len(order) >= max_states:
                        complete = False
                        continue
                    seen[k] = depth + 1
                    order.append(t)
                    nxt.append(t)
        frontier = nxt
        depth += 1
    return order, transitions, complete
