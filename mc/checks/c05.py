"""C05: rendering and typing-syntax options never change the described data.

No reference model is needed: the modules generated under all option sets are
compared with one another."""
import itertools
import json

import common
import docs
import spaces
import tsmodel as tm
from checks import docsem

CONFIGS = [dict(RenderAnonymous=a, UseTypeUnion=u, UseVariadicGenerics=v, UseLiteralType=li,
                UseNotRequired=n, UseEnum=e)
           for li in (False, True) for n in (False, True)
           for a in ('local', 'toplevel', 'functional') for u in (False, True)
           for v, e in ((False, True), (True, True), (True, False))]


def neutral_type(n):
    """Folds literals to their types; removes the traces of optionality."""
    if not isinstance(n, tuple) or not n:
        return n
    if n[0] == 'Lit':
        return tm.union([('py', t) for t, _ in n[1]])
    if n[0] == 'U':
        return tm.union([neutral_type(x) for x in n[1]])
    if n[0] == 'rec':
        return ('rec', tuple(neutral_member(m) for m in n[1]))
    return tuple(neutral_type(x) if isinstance(x, tuple) else x for x in n)


def neutral_member(m):
    name, opt, n = m
    n = neutral_type(n)
    nullable = n == ('py', 'None') or n[0] == 'U' and ('py', 'None') in n[1]
    if n[0] == 'U':
        rest = [x for x in n[1] if x != ('py', 'None')]
        n = tm.union(rest) if rest else n
    # left open: aliases that admit null
    return name, 'o' if opt or nullable else 'r', n


def neutral(desc, cfg, exact):
    res = {}
    for n, d in desc.items():
        if d[0] == 'td':
            if exact:
                res[n] = d
            else:
                res[n] = ('td', tuple(neutral_member(m) for m in d[1]))
        elif d[0] in ('enum', 'plain') and not exact:
            items = d[2] if d[0] == 'enum' else d[1]
            res[n] = ('enum', tuple(i[0] for i in items))
        elif d[0] == 'alias':
            res[n] = d if exact else ('alias', neutral_type(d[1]))
        elif d[0] == 'class' and not exact:
            res[n] = ('class', tuple((k, neutral_member((k, False, t))[2]) for k, t in d[1]),
                      neutral_fun(d[2]))
        elif not exact:
            res[n] = neutral_fun(d)
        else:
            res[n] = d
    return res


def neutral_fun(x):
    return neutral_type(x)


def document(spec):
    if spec[0] == 'menu':
        return docs.build(spec[1], spec[2])
    return spaces.subject_doc(spec[1], spec[2])


def diff(a, b):
    for n in a:
        if a[n] != b.get(n):
            return f'{n}: {str(a[n])[:700]} versus {str(b.get(n))[:700]}'
    return str(set(a) ^ set(b))


def run_case(case):
    spec, sel = case
    doc = document(spec)
    env = tm.env_of(doc)
    text = tm.ts_doc(doc)
    from ts2python.json_validation import validate_type
    fails = []
    ref_n = None
    groups = {}
    n = 0
    outcomes = []
    for ci in sel:
        cfg = CONFIGS[ci]
        mod, code, fail = docsem.compile_and_load(text, cfg)
        n += 1
        if fail:
            fails.append(f'{fail} ({cfg})')
            break
        desc = docs.describe(mod, doc)
        verdicts = []
        for d in doc:
            if d[0] != 'iface' or d[2] or any(m[0] == '()' for m in d[4]) or d[1][0] not in 'SRID':
                continue
            vals = tm.good_values(('ref', d[1]), env, dict(UseLiteralType=True), 2)
            vals = vals[:4] + [v for g in vals[:2] for v in itertools.islice(tm.mutations(g, [None, 7, 'zz', [], {}]), 5, 30)]
            for v in vals:
                v = json.loads(json.dumps(v))
                try:
                    validate_type(v, mod.__dict__[d[1]])
                    r = True
                except (TypeError, ValueError):
                    r = False
                except Exception as e:
                    r = type(e).__name__
                verdicts.append((d[1], repr(v), r))
        common.unload(mod)
        key = (cfg['UseLiteralType'], cfg['UseNotRequired'], cfg['UseEnum'])
        if key in groups:
            c0, d0, v0 = groups[key]
            if neutral(desc, cfg, True) != d0:
                fails.append(f'{c0} and {cfg} differ: ' + diff(d0, neutral(desc, cfg, True)))
            if verdicts != v0:
                w = [(a, b) for a, b in zip(verdicts, v0) if a != b][0]
                fails.append(f'{c0} and {cfg} judge JSON data differently: {w}')
        else:
            groups[key] = (cfg, neutral(desc, cfg, True), verdicts)
            outcomes.append(repr(desc)[:3000])
        nd = neutral(desc, cfg, False)
        if ref_n is None:
            ref_n = (cfg, nd)
        elif nd != ref_n[1]:
            fails.append(f'{ref_n[0]} and {cfg} differ: ' + diff(ref_n[1], nd))
        if fails:
            break
    return dict(fail=fails, n=n, outcomes=outcomes, shown=text if fails else '')


def main():
    run = common.Run('C05')
    common.prepare()
    one, tr1, _ = docs.states(1)
    two, tr2, _ = docs.states(2, docs.MENU, ('around', 'after'))
    terms, tr3, _ = spaces.terms(2 if common.THOROUGH else 1)
    nc = len(CONFIGS)
    cases = []
    for s in one:
        cases.append((('menu',) + s, tuple(range(nc)) if common.THOROUGH else
                      tuple(range(len(cases) % 2, nc, 2))))
    one_set = set(one)
    for i, s in enumerate(two):
        if s in one_set:
            continue
        if common.THOROUGH or i % 5 == common.SEED % 5:
            k = (i + common.SEED) % 9
            cases.append((('menu',) + s, tuple(range(k, nc, 7)) if not common.THOROUGH else tuple(range(i % 3, nc, 3))))
    for i, t in enumerate(terms):
        for j, pos in enumerate(spaces.POSITIONS):
            if common.THOROUGH or (i + j) % 3 == common.SEED % 3:
                cases.append((('term', t, pos), tuple(range((i + j) % 7, nc, 7))))
    run.states = len(cases)
    run.transitions = tr1 + len(cases)
    common.execute(run, cases, run_case)
    run.extra['option_sets'] = nc
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(document=tm.ts_doc(document(c[0]))[-400:], option_sets=len(c[1])))
    run.rule = ('states: documents of the declaration menu and type terms in five positions; single menu documents '
                f'under all (quick: half of the) {nc} option sets, others under every 7th one (rotating); modules of the same literal/'
                'NotRequired/enum switches have to be equal, all others up to the documented change of notation; '
                'JSON verdicts have to be equal')
    return run
