"""C04: JSON data is accepted exactly if it conforms to the TypeScript source."""
import json

import common
import docs
import hierarchy
import spaces
import tsmodel as tm
from checks import docsem

CONFIGS = spaces.CONFIGS


def document(spec):
    if spec[0] in ('term', 'labelled'):
        return spaces.subject_doc(spec[1], spec[2])
    if spec[0] == 'menu':
        return docs.build(spec[1], spec[2])
    if spec[0] == 'hier':
        return hierarchy.document(spec[1])
    if spec[0] == 'kw':
        return (('iface', 'S', (), (), ((spec[1], '', ('b', 'string')), ('other', 'o', ('b', 'string')))),)
    raise ValueError(spec)


def subjects(doc):
    for d in doc:
        if d[0] == 'iface' and d[1][0] in 'SIRD' and not d[2] and not any(m[0] == '()' for m in d[4]):
            yield d[1]


def run_case(case):
    spec, ci = case
    cfg = CONFIGS[ci]
    doc = document(spec)
    env = tm.env_of(doc)
    text = tm.ts_doc(doc)
    mod, code, fail = docsem.compile_and_load(text, cfg)
    if fail:
        return dict(fail=[fail], shown=text + '\n' + str(cfg) + common.body(code or ''))
    from ts2python.json_validation import validate_type
    fails, outcomes, n = [], set(), 0
    for name in subjects(doc):
        typ, term = mod.__dict__[name], ('ref', name)
        vals = tm.test_values(term, env, cfg, 2 if tm_size(env[name]) > 4 else 3)
        if not common.THOROUGH and len(vals) > 160:
            step = len(vals) // 160 + 1
            good = tm.good_values(term, env, cfg, 3)
            vals = good + vals[ci % step::step]
        for v in vals:
            v = json.loads(json.dumps(v))
            exp = tm.conf(v, term, env, cfg)
            n += 1
            try:
                validate_type(v, typ)
                got = True
            except (TypeError, ValueError):
                got = False
            except Exception as e:
                got = common.describe_exc(e)
            outcomes.add(f'{name}{json.dumps(v)[:80]}{exp}')
            if not isinstance(got, bool):
                fails.append(f'{name}: value {v!r}: {got}')
            elif exp is not None and got != exp:
                fails.append(f'{name}: value {v!r} is {"accepted" if got else "rejected"}, '
                             f'but does {"" if exp else "not "}conform')
            if len(fails) > 2:
                break
    common.unload(mod)
    if fails and spec[0] in ('kw', 'labelled'):
        fails = [('python-keyword-member' if spec[0] == 'kw' else 'labelled-tuple', f) for f in fails]
    return dict(fail=fails, n=n, outcomes=list(outcomes)[:40],
                shown=(text + '\n' + str(cfg) + '\n' + common.body(code)) if fails else '')


def tm_size(d):
    return len(d[4]) + sum(spaces.size(m[2]) for m in d[4] if m[2] is not None and m[0] != '()')


def main():
    run = common.Run('C04')
    common.prepare()
    full, tr, complete = spaces.terms(2, max_states=None)
    n1 = len(spaces.terms(1)[0])
    one, tr1, _ = docs.states(1, docs.DATA_MENU)
    two, tr2, _ = docs.states(2, docs.DATA_MENU)
    hs, tr3 = hierarchy.states(3, rich=common.THOROUGH)
    run.transitions = tr + tr2 + tr3
    nc = len(CONFIGS)
    cases = [(('kw', 'from'), 0)]
    for i, t in enumerate(full):
        k = nc if common.THOROUGH and i < n1 else (2 if i < n1 or common.THOROUGH else (1 if i % 3 == common.SEED % 3 else 0))
        for j in range(k):
            cases.append((('term', t, spaces.POSITIONS[(i + j) % 5]), (i * 7 + j * 5 + common.SEED) % nc))
    lab = list(dict.fromkeys(spaces.labelled(spaces.LEAVES)))
    for i, t in enumerate(lab):
        if common.THOROUGH or i % 5 == common.SEED % 5:
            cases.append((('labelled', t, spaces.POSITIONS[i // 5 % 5]), (i * 7 + common.SEED) % nc))
    for i, s in enumerate(one):
        cases += [(('menu',) + s, c) for c in range(nc) if common.THOROUGH or (c + i) % 3 == common.SEED % 3]
    for i, s in enumerate(two):
        if common.THOROUGH or i % 7 == common.SEED % 7:
            cases.append((('menu',) + s, (i * 11 + common.SEED) % nc))
    for i, h in enumerate(hs):
        if common.THOROUGH or i % 2 == common.SEED % 2:
            cases.append((('hier', h), (i * 5 + common.SEED) % nc))
    run.states = len({c[0] for c in cases})
    common.execute(run, cases, run_case)
    run.extra['modules'] = len(cases)
    for c in (cases[1], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(document=tm.ts_doc(document(c[0]))[-400:], options=CONFIGS[c[1]]))
    run.rule = ('states: type terms up to depth 2 in five positions, labelled tuples, documents of the declaration menu, interface '
                'hierarchies; traces: JSON values (conforming ones and all their single-point mutations) validated '
                'against the classes of the module that was really generated')
    return run
