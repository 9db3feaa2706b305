"""C02: interfaces keep their members, optionality and inheritance."""
import ast
import itertools

import common
import docs
import hierarchy
import tsmodel as tm
from checks import docsem

CONFIGS = [dict(), dict(UseNotRequired=True), dict(UseTypeUnion=True),
           dict(UseNotRequired=True, UseTypeUnion=True, UseLiteralType=True),
           dict(RenderAnonymous='toplevel'), dict(RenderAnonymous='functional', UseTypeUnion=True),
           dict(UseVariadicGenerics=True)]

# element types of a single member: does "optional" follow from the declaration only?
NASTY = (('b', 'null'), ('uni', (('b', 'null'), ('b', 'string'))), ('arr', ('uni', (('b', 'null'), ('b', 'integer')))),
         ('map', 'string', ('uni', (('b', 'string'), ('b', 'null')))), ('ref', 'NoneType_'), ('ref', 'Optional_'),
         ('lit', 'None'), ('lit', ', None]'), ('uni', (('lit', 'None'), ('b', 'integer'))),
         ('anon', (('None_', 'o', ('b', 'string')),)), ('anon', (('q', 'o', ('b', 'null')), ('r', '', ('b', 'string')))),
         ('fun', (('a', ('b', 'string')),), ('b', 'null')), ('tup', (('b', 'null'), ('b', 'string'))),
         ('uni', (('arr', ('b', 'null')), ('b', 'string'))), ('uni', (('ref', 'NoneType_'), ('b', 'string'))),
         ('uni', (('anon', (('x', 'o', ('b', 'string')),)), ('b', 'integer'))), ('b', 'any'), None,
         ('uni', (('b', 'string'), ('b', 'null'))), ('par', ('uni', (('b', 'string'), ('b', 'null')))),
         ('ref', 'Rec'))


def nasty_docs():
    """Two members with all combinations of flags and types in which None plays a role."""
    for i, t in enumerate(NASTY):
        for j, u in enumerate(NASTY):
            if j > i + 3 and (i + j) % 3:
                continue
            for fl in (('', ''), ('o', ''), ('', 'o'), ('or', 'o')):
                yield ('nasty', i, j, fl)


GEN = (('iface', 'G', ('T',), (), (('gx', '', ('ref', 'T')), ('gy', 'o', ('arr', ('ref', 'T'))))),
       ('iface', 'H', ('U', 'V'), (), (('hu', 'o', ('ref', 'U')), ('hv', '', ('ref', 'V')))),
       ('iface', 'P', (), (), (('px', '', ('b', 'string')), ('py', 'o', ('b', 'integer')))),
       ('iface', 'Q', (), (('app', 'G', (('b', 'string'),)),), (('qx', '', ('b', 'boolean')),)))
BASES = (('ref', 'P'), ('ref', 'Q'), ('app', 'G', (('b', 'string'),)), ('app', 'G', (('ref', 'Z'),)),
         ('app', 'H', (('b', 'string'), ('ref', 'P'))), ('app', 'G', (('ref', 'T'),)), ('app', 'H', (('ref', 'T'), ('ref', 'T'))))


def generic_docs():
    """Interfaces with every selection of up to three plain and generic bases."""
    for n in (1, 2, 3):
        for bs in itertools.permutations(range(len(BASES)), n):
            names = [BASES[b][1] for b in bs]
            if len(set(names)) < n or 'Q' in names and 'G' in names:
                continue
            tps = any(("('ref', 'T')" in repr(BASES[b])) for b in bs)
            for own in range(3):
                for derived in (False, True):
                    yield ('gen', bs, tps, own, derived)


SIZES = tuple(range(1, 13)) + (16, 17, 33, 65)
FLAGS = ('', 'o', 'r', '', 'or', '')
MEMBER_TYPES = (('b', 'string'), ('uni', (('b', 'null'), ('b', 'string'))), ('ref', 'Z'), ('arr', ('ref', 'Z')), ('b', 'integer'))
FORMS = ('members', 'required', 'optional', 'chain', 'bases', 'diamond', 'nested', 'after')


def ladder_doc(form, n):
    """Interfaces with many members or bases, long chains of inheritance, deep nesting."""
    def member(i, fl=None):
        return (f'm{i}', FLAGS[i % 6] if fl is None else fl, MEMBER_TYPES[i % 5])
    Z = ('iface', 'Z', (), (), (('z', 'o', ('b', 'string')),))
    if form in ('members', 'required', 'optional'):
        fl = dict(members=None, required='', optional='o')[form]
        return (('iface', 'S', (), (), tuple(member(i, fl) for i in range(n))),
                ('iface', 'D', (), (('ref', 'S'),), (('d', '', ('b', 'string')),)), Z)
    if form == 'chain':
        return tuple(('iface', f'S{i}', (), (('ref', f'S{i - 1}'),) if i else (), (member(i),)) for i in range(n)) + (Z,)
    if form == 'bases':
        return tuple(('iface', f'S{i}', (), (), (member(i),)) for i in range(n)) + \
            (('iface', 'D', (), tuple(('ref', f'S{i}') for i in range(n)), (('d', 'o', ('b', 'string')),)), Z)
    if form == 'diamond':
        return (('iface', 'R', (), (), (member(0), member(1))),) + \
            tuple(('iface', f'S{i}', (), (('ref', 'R'),), (member(i + 2),)) for i in range(n)) + \
            (('iface', 'D', (), tuple(('ref', f'S{i}') for i in range(n)), ()), Z)
    if form == 'nested':
        t = ('b', 'string')
        for i in range(min(n, 12)):
            t = ('anon', (('p', FLAGS[i % 6], t), (f'q{i}', FLAGS[(i + 1) % 6], MEMBER_TYPES[i % 5])))
        return (('iface', 'S', (), (), (('m', '', t), ('n', 'o', t))), Z)
    # many declarations before
    return tuple(('iface', f'X{i}', (), (), (member(i),)) for i in range(n)) + \
        (('iface', 'S', (), (('ref', f'X{n - 1}'),), (('s', 'o', ('ref', 'X0')), ('t', '', ('ref', 'T')))),
         ('iface', 'T', (), (('ref', 'X0'),), (('y', '', ('ref', f'X{n - 1}')),)), Z)


def document(spec):
    if spec[0] == 'ladder':
        return ladder_doc(*spec[1:])
    if spec[0] == 'gen':
        _, bs, tps, own, derived = spec
        ms = ((), (('own', '', ('b', 'string')),), (('own', 'o', ('ref', 'T') if tps else ('ref', 'Z')), ('o2', '', None)))[own]
        S = ('iface', 'S', ('T',) if tps else (), tuple(BASES[b] for b in bs), ms)
        D = ('iface', 'D', (), (('app', 'S', (('b', 'integer'),)) if tps else ('ref', 'S'),), (('dx', 'o', ('b', 'string')),))
        return GEN + (S,) + ((D,) if derived else ()) + (('iface', 'Z', (), (), (('zx', '', ('b', 'boolean')),)),)
    if spec[0] == 'menu':
        return docs.build(spec[1], spec[2])
    if spec[0] == 'hier':
        return hierarchy.document(spec[1])
    if spec[0] == 'nasty':
        _, i, j, fl = spec
        return (('iface', 'NoneType_', (), (), (('x', '', ('b', 'string')),)),
                ('iface', 'S', (), (), (('m', fl[0], NASTY[i]), ('n', fl[1], NASTY[j]))),
                ('iface', 'D', (), (('ref', 'S'),), (('own', 'o', NASTY[j]),)),
                ('iface', 'Optional_', (), (), (('x', 'o', ('b', 'string')),)),
                ('iface', 'Rec', (), (), (('m', 'o', ('ref', 'Rec')),)))
    raise ValueError(spec)


def totality(doc, cfg, code):
    """The parameter total, by the documentation: False iff members have been declared optional."""
    decls = {d[1]: d for d in doc if d[0] == 'iface'}
    fails = []
    for c in ast.parse(common.body(code)).body:
        if not isinstance(c, ast.ClassDef) or c.name not in decls or \
                not any(ast.unparse(b) in ('TypedDict', 'GenericTypedDict') for b in c.bases):
            continue
        got = [k.value.value for k in c.keywords if k.arg == 'total']
        optional = any(m[0] != '()' and m[0] and 'o' in m[1] for m in decls[c.name][4])
        want = ([], [True]) if cfg.get('UseNotRequired') else ([not optional],)
        if got not in want:
            fails.append(f'{c.name} has the parameter total={got}, although {"some" if optional else "no"} members are optional')
    return fails


def run_case(case):
    spec, ci = case
    cfg = CONFIGS[ci]
    doc = document(spec)
    text = tm.ts_doc(doc)
    mod, code, fail = docsem.compile_and_load(text, cfg)
    if fail:
        return dict(fail=[fail], shown=text + '\n' + str(cfg) + common.body(code or ''))
    fails = docsem.check_interfaces(doc, mod, cfg, types=False) + totality(doc, cfg, code)
    out = [repr((sorted(c.__required_keys__), sorted(c.__optional_keys__))) for c in
           (mod.__dict__.get(d[1]) for d in doc if d[0] == 'iface') if tm.is_td(c)]
    common.unload(mod)
    return dict(fail=fails, outcomes=[' '.join(out)],
                shown=(text + '\n' + str(cfg) + '\n' + common.body(code)) if fails else '')


def main():
    run = common.Run('C02')
    common.prepare()
    hs, tr = hierarchy.states(4 if common.THOROUGH else 3, rich=not common.THOROUGH)
    one, tr1, _ = docs.states(2 if common.THOROUGH else 1, docs.DATA_MENU)
    nd = list(nasty_docs())
    gd = list(generic_docs())
    run.states = len(hs) + len(one) + len(nd) + len(gd)
    run.transitions = tr + tr1 + len(nd) + len(gd)
    nc = len(CONFIGS)
    cases = []
    small = [h for h in hs if len(h) <= 3]
    for i, h in enumerate(hs):
        n = 3 if len(h) <= 3 else 1
        cases += [(('hier', h), (i * 3 + j * 2 + common.SEED) % nc) for j in range(n)]
    for i, s in enumerate(one):
        cases += [(('menu',) + s, c) for c in range(nc)]
    for i, s in enumerate(nd):
        n = nc if common.THOROUGH else 2
        cases += [(s, (i + j * 3 + common.SEED) % nc) for j in range(n)]
    cases += [(s, c) for i, s in enumerate(gd) for c in range(nc) if common.THOROUGH or (i + c) % 2 == common.SEED % 2]
    ld = [('ladder', f, n) for f in FORMS for n in SIZES]
    cases += [(s, (i + j * 3 + common.SEED) % nc) for i, s in enumerate(ld) for j in range(nc if common.THOROUGH else 2)]
    run.states += len(ld)
    common.execute(run, cases, run_case)
    run.extra['documents_transpiled'] = len(cases)
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(document=tm.ts_doc(document(c[0]))[-500:], options=CONFIGS[c[1]]))
    run.rule = ('states: all inheritance graphs of up to %d interfaces (up to two ordered bases each) with all '
                'assignments of member sets that TypeScript admits; pairs of members whose types mention null; '
                'interfaces of growing size (members, bases, depth); interfaces with up to three plain and generic bases; documents of the declaration menu' % (4 if common.THOROUGH else 3))
    return run
