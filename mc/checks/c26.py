"""C26: equivalent TypeScript notations yield the same types."""
import itertools

import common
import docs
import spaces
import tsmodel as tm
from checks import docsem
from checks.c05 import diff

CONFIGS = spaces.CONFIGS
DIMENSIONS = dict(
    array=(None, 'Array', 'ReadonlyArray'), sep=(';', ',', ''), notrail=(False, True), oneline=(False, True),
    export=(False, True), declare=(False, True), readonly=(False, True), kw=('interface', 'class'),
    bar=(False, True), paren_union=(False, True), quote=('"', "'"), quote_items=(False, True),
    enum_trail=(False, True), noexport_items=(False, True), isemi=(False, True), ext=('extends', 'implements'),
    map_semi=(False, True), ro_array=(False, True), pbar=(False, True),
    qual=('', 'static ', 'static readonly ', 'readonly static ', 'let ', 'var ', 'readonly let '),
    fqual=('', 'static ', 'function ', 'static function '))
NAMES = list(DIMENSIONS)


def styles(k):
    """All styles that deviate from the default in up to k dimensions."""
    res = [()]
    for n in range(1, k + 1):
        for dims in itertools.combinations(NAMES, n):
            for vals in itertools.product(*(DIMENSIONS[d][1:] for d in dims)):
                res.append(tuple(zip(dims, vals)))
    return res


def legal(doc, st):
    if st.get('ro_array') and st.get('array'):
        return False
    if st.get('paren_union') and st.get('array'):
        return False        # parentheses are not allowed within type parameters
    if st.get('sep') == '' and st.get('oneline'):
        return False
    return True


def document(spec):
    if spec[0] == 'menu':
        return docs.build(spec[1], spec[2])
    return spaces.subject_doc(spec[1], spec[2])


def has_quote(doc):
    def walk(x):
        if isinstance(x, tuple):
            return any(walk(y) for y in x)
        return isinstance(x, str) and ("'" in x or '"' in x)
    return walk(doc)


def run_case(case):
    spec, ci, sts = case
    cfg = CONFIGS[ci]
    doc = document(spec)
    mod, code, fail = docsem.compile_and_load(tm.ts_doc(doc), cfg)
    if fail:
        return dict(fail=[fail], shown=tm.ts_doc(doc))
    ref = docs.describe(mod, doc)
    common.unload(mod)
    n, outs = 1, set()
    for s in sts:
        st = dict(s)
        if not legal(doc, st) or 'quote' in st and has_quote(doc):
            continue
        text = tm.ts_doc(doc, st)
        mod, code, fail = docsem.compile_and_load(text, cfg)
        n += 1
        if fail:
            fails = [f'{st}: {fail}']
        else:
            desc = docs.describe(mod, doc)
            common.unload(mod)
            fails = [] if desc == ref else [f'{st} changes the meaning: ' + diff(ref, desc)]
        outs.add(hash(text))
        if fails:
            return dict(fail=fails, n=n, shown=text + '\n' + str(cfg) + '\n' + common.body(code or ''))
    return dict(fail=[], n=n, outcomes=[str(o) for o in outs])


def main():
    run = common.Run('C26')
    common.prepare()
    one, tr1, _ = docs.states(1, ctxs=docs.CTXS if common.THOROUGH else ('around', 'after'))
    terms, tr3, _ = spaces.terms(2 if common.THOROUGH else 1)
    single, double = styles(1), styles(2)
    cases, n = [], 0
    for i, s in enumerate(one):
        spec = ('menu',) + s
        if common.THOROUGH:
            for k in range(0, len(double), 60):
                cases.append((spec, (i + k) % 24, tuple(double[k:k + 60])))
        else:
            cases.append((spec, (i * 5 + common.SEED) % 24, tuple(single)))
            cases.append((spec, (i * 7 + common.SEED) % 24, tuple(double[(i + common.SEED) % 6::6])))
    for i, t in enumerate(terms):
        for j, pos in enumerate(spaces.POSITIONS):
            if common.THOROUGH or (i + j) % 3 == common.SEED % 3:
                cases.append((('term', t, pos), (i * 5 + j) % 24, tuple(single)))
    run.states = len({c[0] for c in cases})
    run.transitions = sum(len(c[2]) for c in cases)
    common.execute(run, cases, run_case, chunk=4)
    run.extra['styles'] = len(double)
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(document=tm.ts_doc(document(c[0]), dict(c[2][-1]))[-500:], style=repr(c[2][-1])))
    run.rule = (f'states: documents of the declaration menu and type terms; traces: all {len(single)} notations that '
                f'deviate in one respect, and the {len(double)} notations that deviate in two (quick: every 6th, '
                'rotating), compared with the plain notation of the same document')
    return run
