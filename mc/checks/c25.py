"""C25: the order of independent declarations does not matter."""
import itertools

import common
import docs
import hierarchy
import spaces
import tsmodel as tm
from checks import docsem
from checks.c05 import diff

CONFIGS = spaces.CONFIGS


def deps(d):
    """Names of the bases which have to be declared before."""
    return {b[1] for b in d[3]} if d[0] == 'iface' else set()


def orders(doc):
    """All permutations that keep bases before derived interfaces and the
    relative order of overloads of the same function."""
    names = [d[1] for d in doc]
    n = len(doc)

    def rec(done, order):
        if len(order) == n:
            yield tuple(order)
            return
        for i in range(n):
            if i in done:
                continue
            if any(b in names and names.index(b) not in done for b in deps(doc[i])):
                continue
            if any(names[j] == names[i] and j not in done for j in range(i)):
                continue
            yield from rec(done | {i}, order + [i])
    return rec(frozenset(), [])


def document(spec):
    """Small contexts, so that all permutations can be enumerated."""
    if spec[0] == 'menu':
        decls = ()
        for i, k in enumerate(spec[1]):
            decls += docs.MENU[k](f'S{i + 1}')
        used = names_in(decls)
        ctx = tuple(d for d in docs.CTX1 + docs.CTX2 if d[1] in used)
        used |= names_in(ctx)
        return tuple(d for d in docs.CTX1 + docs.CTX2 if d[1] in used) + decls
    return hierarchy.document(spec[1])


def names_in(x):
    res = set()

    def walk(t):
        if isinstance(t, tuple):
            if len(t) >= 2 and t[0] in ('ref', 'app') and isinstance(t[1], str):
                res.add(t[1])
            for y in t:
                walk(y)
    walk(x)
    return res


LIMIT = 4000


def declared_types(mod, doc):
    """Types of the constants, as far as they are declared."""
    names = tm.names_of(doc)
    return {n: tm.pynorm(t, mod.__dict__, names) for n, t in mod.__dict__.get('__annotations__', {}).items()}


def run_case(case):
    spec, ci, part, parts = case
    cfg = CONFIGS[ci]
    doc = document(spec)
    ref = None
    fails, n, outs = [], 0, set()
    for i, order in enumerate(itertools.islice(orders(doc), LIMIT)):
        if i and i % parts != part:
            continue
        d = tuple(doc[j] for j in order)
        text = tm.ts_doc(d)
        mod, code, fail = docsem.compile_and_load(text, cfg)
        n += 1
        if fail:
            fails.append(fail)
        else:
            desc = docs.describe(mod, doc)
            desc.update((f'type of {n}', t) for n, t in declared_types(mod, doc).items())
            common.unload(mod)
            outs.add(hash(common.body(code)))
            if ref is None:
                ref = desc, text
            elif desc != ref[0]:
                fails.append('order of declarations matters: ' + diff(ref[0], desc))
        if fails:
            return dict(fail=fails, n=n, shown=text + '\n' + str(cfg) + '\n' + common.body(code or ''))
    return dict(fail=[], n=n, outcomes=[f'{spec}{len(outs)}{part}'])


def main():
    run = common.Run('C25')
    common.prepare()
    one = [('menu', (k,)) for k in docs.MENU]
    two = [('menu', p) for p in itertools.combinations_with_replacement(docs.MENU, 2)]
    hs, tr = hierarchy.states(3)
    cases, total = [], 0
    for i, s in enumerate(one + two):
        c = sum(1 for _ in itertools.islice(orders(document(s)), LIMIT))
        bound = (4000 if i < len(one) else 720) if common.THOROUGH else (800 if i < len(one) else 24)
        if c > bound:
            continue
        total += c
        ks = range(4) if i < len(one) and c < 60 or common.THOROUGH else range(1)
        parts = max(1, c // 150)
        for j in ks:
            for part in range(parts):
                cases.append((s, (i * 7 + j * 5 + common.SEED) % len(CONFIGS), part, parts))
    for i, h in enumerate(hs):
        if len(h) < 3 or common.THOROUGH or i % 4 == common.SEED % 4:
            cases.append((('hier', h), (i * 5 + common.SEED) % len(CONFIGS), 0, 1))
    run.states = len({c[0] for c in cases})
    run.transitions = total
    common.execute(run, cases, run_case, chunk=4)
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(document=tm.ts_doc(document(c[0]))[-400:], options=CONFIGS[c[1]]))
    run.rule = ('states: documents (items of the declaration menu with the declarations they need, and all interface '
                'hierarchies up to three interfaces); traces: all permutations of each document that keep bases '
                'before derived interfaces (documents with more permutations than the bound are left out)')
    return run
