"""C11: transpilation depends on nothing but source and configuration."""
import hashlib
import json
import os
import pickle
import subprocess
import sys

import common
import permset
from checks import c07

CFGS = (dict(), dict(UseTypeUnion=True, UseLiteralType=True, UseNotRequired=True, KeepMultilineComments=True),
        dict(RenderAnonymous='toplevel', ClassDecorator='@deco', UseVariadicGenerics=True),
        dict(RenderAnonymous='functional', BaseClassName='', UseEnum=False))
BAD_CFG = dict(RenderAnonymous='bogus')     # raises ValueError within the compiler's reset
ERRONEOUS = (
    'interface A { a: { b: ',
    'export namespace N { export namespace M { export const a: number = ; } interface A { } }',
    'interface G<T> { f(a: T): { b: T', 'class C<T> { constructor( ; m(): T; }', 'enum E { a = 1, b = }',
    'type U = "a" | | 3;', 'export function f(a: { x: A }, b', '/* unterminated', '}', '"',
    'interface A { a: string }\ninterface A { b: string }\ntype A = string; enum A { x }',
    'interface A extends B { a: string } interface B extends A { }',
    '// comment\ninterface S { /** doc\n * more */ a: string; // line\n b?: A | null }',
)
SAME_NAMES = (
    'interface A { a: string }', 'type A = string;', 'enum A { x, y }', 'export namespace A { export const x = 1; }',
    'interface B { a: A; b: T }', 'interface B<T> { a: T; c: A<T> }', 'class A { m(a: B): A; }',
    'interface A extends B { c: E }\nenum E { a = "x" }', 'type T = A | B;\ninterface B { t?: T }',
    'namespace N { interface A { } }\ninterface C { a: N.A; b: A }', 'function f(a: A): B;\nfunction f(a: B): A;',
    'interface A { f(a: { x: string }): { y: B } }', 'interface S_0 { a: { b: string } | { c: string } }',
)


def steps():
    res = []
    for i, s in enumerate(c07.specs()):
        res.append((c07.source(s), i % len(CFGS)))
    for i, t in enumerate(ERRONEOUS + SAME_NAMES):
        res.append((t, i % len(CFGS)))
        if i % 3 == 0 or common.THOROUGH:
            res.append((t, (i + 1) % len(CFGS)))
    if common.THOROUGH:
        res += [(c07.source(s), (i + 1) % len(CFGS)) for i, s in enumerate(c07.specs())]
    res.append((SAME_NAMES[0], -1))
    res.append((c07.EXTRA_DOCS[0], -1))
    return res


STEPS = []
FRESH = {}


def perform(k):
    """Executes a step; returns a description of its outcome."""
    text, ci = STEPS[k]
    try:
        code, errs = common.transpile(text, CFGS[ci] if ci >= 0 else BAD_CFG)
        return common.strip_stamp(code), errs
    except Exception as e:
        return type(e).__name__, str(e)


def in_child(func):
    """Result of func(), evaluated in a forked process."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(func(), f)
            os._exit(0)
        except BaseException as e:
            sys.stderr.write(f'{type(e).__name__}: {e}\n')
            os._exit(1)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def history(ks):
    """Outcome of the last step of a history that begins in a fresh process."""
    def run():
        for k in ks[:-1]:
            perform(k)
        return perform(ks[-1])
    return in_child(run)


def describe(ks):
    return [(STEPS[k][0], CFGS[STEPS[k][1]] if STEPS[k][1] >= 0 else BAD_CFG) for k in ks]


def diff(a, b):
    if a[0] != b[0]:
        return 'different code: ' + c07.first_diff(a[0] or '', b[0] or '')
    return f'different messages: {b[1]} instead of {a[1]}'


def check_fork(prefix, last):
    """All histories prefix + one step."""
    def run():
        for k in prefix:
            perform(k)
        res = []
        for k in last:
            out = in_child(lambda: perform(k))
            if out != FRESH[k]:
                res.append((k, diff(FRESH[k], out)))
                if len(res) > 2:
                    break
        return res
    bad = in_child(run)
    return dict(fail=[f'after the history {describe(prefix)} the step {describe([k])}: {m}' for k, m in bad],
                n=len(last), outcomes=[(tuple(prefix), k) for k in last])


def check_long(ks):
    """One process executes all the steps."""
    def run():
        for i, k in enumerate(ks):
            out = perform(k)
            if out != FRESH[k]:
                return i, diff(FRESH[k], out)
        return None
    bad = in_child(run)
    if not bad:
        return dict(n=len(ks), fail=[], outcomes=[])
    i, m = bad
    hist = list(ks[:i + 1])
    for j in range(max(0, i - 3), i):             # a shorter history that fails
        if history(hist[j:]) != FRESH[ks[i]]:
            hist = hist[j:]
            break
    return dict(n=i, fail=[f'after the history {describe(hist[:-1])[-4:]} the step {describe(hist[-1:])}: {m}'])


def check_sets(k):
    """All orders of iteration of the sets used for one step."""
    limit = 2000 if common.THOROUGH else 120
    def run():
        permset.load(common.TREE)
        ch = permset.CHOICES
        ch.reset()
        n, points = 0, 0
        while n < limit:
            ch.begin()
            out = perform(k)
            n += 1
            points = max(points, len(ch.trace))
            if out != FRESH[k]:
                return n, points, f'sets iterated in the order {ch.trace}: {diff(FRESH[k], out)}', True
            if not ch.advance():
                return n, points, '', True
        return n, points, '', False
    n, points, msg, complete = in_child(run)
    return dict(n=n, fail=[f'{describe([k])}: {msg}'] if msg else [], outcomes=[('sets', n, points, complete, k)])


HASH_SCRIPT = '''
import sys
sys.path.insert(0, {mc!r})
import common
common.TREE = {tree!r}
sys.path.insert(0, {tree!r})
sys.dont_write_bytecode = True
import json
from checks import c11
c11.STEPS[:] = [tuple(s) for s in json.load(sys.stdin)]
json.dump([c11.digest(c11.perform(k)) for k in range(len(c11.STEPS))], sys.stdout)
'''


def digest(out):
    return hashlib.sha1(repr(out).encode()).hexdigest()


def check_hash(seed):
    """A process with another seed of the hash function of strings."""
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run([sys.executable, '-B', '-c', HASH_SCRIPT.format(mc=os.path.dirname(common.__file__),
                                                                      tree=common.TREE)],
                       input=json.dumps(STEPS), capture_output=True, text=True, env=env)
    if p.returncode:
        return dict(fail=[f'process failed: {p.stderr[-500:]}'])
    res = json.loads(p.stdout)
    bad = [k for k in range(len(STEPS)) if res[k] != digest(FRESH[k])]
    return dict(n=len(STEPS), fail=[f'PYTHONHASHSEED={seed}: different result of {describe([k])}' for k in bad[:3]],
                outcomes=[('hash', seed)])


def run_case(case):
    return dict(fork=lambda: check_fork(case[1], case[2]), long=lambda: check_long(case[1]),
                sets=lambda: check_sets(case[1]), hash=lambda: check_hash(case[1]))[case[0]]()


def de_bruijn(n):
    """A cyclic sequence over range(n) that contains every pair (Eulerian path)."""
    out = {i: list(range(n)) for i in range(n)}
    stack, path = [0], []
    while stack:
        v = stack[-1]
        if out[v]:
            stack.append(out[v].pop())
        else:
            path.append(stack.pop())
    return path[::-1]


def fresh_of(k):
    return k, in_child(lambda: perform(k))


def fresh_case(k):
    return dict(fail=[], fresh=fresh_of(k))


def main():
    run = common.Run('C11')
    common.prepare()
    STEPS[:] = steps()
    n = len(STEPS)
    for _, res in common.pmap(fresh_case, range(n), chunk=2):
        k, out = res['fresh']
        FRESH[k] = out
    assert len(FRESH) == n
    # hazards: erroneous documents, documents that use the same names, invalid configuration
    base = len(c07.specs())
    hazard = [k for k in range(base, n)]
    cases = []
    for k in range(n):
        last = [j for j in range(n) if common.THOROUGH or k >= base or j >= base and (j + k + common.SEED) % 2 == 0
                or (j + k + common.SEED) % 6 == 0]
        cases.append(('fork', (k,), tuple(last)))
    few = hazard[common.SEED % 3::3] if not common.THOROUGH else hazard
    for a in few:
        for b in few:
            if a != b or common.THOROUGH:
                last = few if not common.THOROUGH else hazard[::2]
                cases.append(('fork', (a, b), tuple(last[(a + b) % 2::2] if not common.THOROUGH else last)))
    bad = [k for k in range(n) if STEPS[k][1] < 0]
    for a in range(n):                     # a failure between two steps
        if STEPS[a][1] > 0 and (common.THOROUGH or (a + common.SEED) % 3 == 0):
            cases.append(('fork', (a, bad[a % len(bad)]), tuple(range(a % 5, n, 1 if common.THOROUGH else 5))))
    path = de_bruijn(n)
    size = len(path) // 16 + 1
    for i in range(0, len(path), size):
        cases.append(('long', tuple(path[max(0, i - 1):i + size])))
    cases += [('sets', k) for k in range(n)]
    cases += [('hash', common.SEED * 10 + s) for s in range(16 if common.THOROUGH else 3)]
    cases.sort(key=lambda c: {'long': 0, 'hash': 1}.get(c[0], 2))
    run.states = n + sum(1 for c in cases if c[0] == 'fork')
    run.transitions = sum(len(c[2]) for c in cases if c[0] == 'fork') + len(path)
    common.execute(run, cases, run_case, chunk=1)
    sets = [o for o in run.nontrivial if o[0] == 'sets']
    run.extra['set_order_executions'] = sum(o[1] for o in sets)
    run.extra['max_choice_points'] = max([o[2] for o in sets] or [0])
    if not all(o[3] for o in sets):
        run.exhaustive = False
    for c in (('fork', (hazard[0],), (0,)), ('fork', (hazard[5], hazard[9]), (hazard[3],))):
        run.sample(dict(history=describe(c[1]), last=describe(c[2])))
    run.rule = (f'states: histories of {n} steps (document x configuration, among them erroneous documents and an '
                'invalid configuration): all of length 2 (quick: all that involve erroneous or name-sharing documents), '
                'a slice of length 3 - each in a process of its own - and one walk through all pairs; for every step '
                'all orders of iteration of all sets; several hash seeds')
    return run
