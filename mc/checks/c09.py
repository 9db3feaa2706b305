"""C09: the spelling of identifiers does not matter."""
import ast
import builtins
import keyword
import os
import re

import common
import docs
import spaces
import tsmodel as tm
from checks import docsem
from checks.c05 import diff

TS_WORDS = ('export', 'declare', 'interface', 'class', 'extends', 'implements', 'type', 'enum', 'const',
            'namespace', 'module', 'import', 'function', 'let', 'var', 'readonly', 'in', 'static', 'keyof',
            'new', 'true', 'false', 'special', 'from', 'as')
BASIC = ('object', 'array', 'string', 'number', 'boolean', 'null', 'integer', 'uinteger', 'decimal',
         'unknown', 'any', 'void', 'undefined')
TS_RESERVED = set('''break case catch class const continue debugger default delete do else enum export extends
 false finally for function if import in instanceof new null return super switch this throw true try typeof
 var void while with implements interface let package private protected public static yield'''.split())
PREDEFINED = {'Array', 'ReadonlyArray', 'Object', 'String', 'Number', 'Boolean', 'Function', 'Symbol'}
CONTEXTUAL = ('type', 'declare', 'readonly', 'namespace', 'module', 'from_', 'of', 'get', 'set', 'keyof', 'let',
              'static', 'var', 'abstract', 'infer', 'unique', 'symbol', 'constructor_', 'interface', 'implements',
              'function', 'export', 'const', 'enum', 'new', 'extends', 'special')
LIBRARY = ('Error', 'RegExp', 'Thenable', 'IterableIterator', 'Uint32Array', 'Uint8Array', 'Date', 'Map', 'Set_',
           'Promise', 'Record', 'Partial', 'Iterable_', 'Buffer', 'Element', 'Node', 'Event', 'BigInt', 'Decimal',
           'Int', 'Long', 'Double', 'Char', 'Byte', 'UUID', 'Uri', 'URL', 'JSON', 'Json', 'Path', 'Bytes', 'Time',
           'DateTime', 'NaN', 'Infinity', 'Undefined', 'Null', 'Void', 'Never', 'Unknown', 'Bool', 'Integer',
           'Uinteger', 'Str', 'Vec', 'Option', 'Result', 'Range', 'Token', 'Int32Array', 'WeakMap', 'Proxy')
SHAPES = ('x', 'X', '_x', '__x', 'x_', 'X_', 'x1', 'X1', 'x_0', 'X_0', 'X_0_1', 'x0_', 'aB', 'A_B', 'camelCase1',
          'ALLCAPS', 'größe', 'Ünit', 'x__y', 'NoneX', 'ListX', 'XList', 'UnionType', 'strX', 'Xstr', 'OptionalX',
          'TypedDictX', 'DictX', 'LiteralX', 'AnyX', 'classX', 'passX', 'selfX', 'Result', 'Result_0', 'argX')


def names(kind):
    res = []
    for w in TS_WORDS + BASIC:
        res += [w + 'X', w + '_', w + '1', '_' + w, 'X' + w, w.capitalize(), w.capitalize() + 's', w + '_' + w]
    res += list(SHAPES)
    res += SPECIAL + keyword.kwlist + ['None_', 'mro', '_x_', '_missing_']
    if kind in ('member', 'param', 'item'):
        res += list(CONTEXTUAL) + list(BASIC) + ['A', 'Z', 'E', 'L', 'S1', 'S1_0', 'Ax', 'Data', 'T', 'G']
        res += ['str', 'int', 'list', 'dict', 'float', 'bool', 'id', 'print', 'self_', 'cls', 'key', 'items', 'name',
                'value', 'keys', 'total']
    else:
        res += ['type', 'declare', 'namespace', 'module', 'of', 'get', 'abstract', 'SS1', 'S1S', 'S11', 'S', 'S1_',
                'ZA', 'AZ', 'Ax', 'A_0', 'Z_0', 'T1'] + list(LIBRARY)
    out = []
    for n in res:
        if n in out or n in ('true', 'false'):
            continue
        if kind in ('decl', 'tparam') and (n in TS_RESERVED or n in BASIC or hasattr(builtins, n) or n in IMPORTED
                                         or n in PREDEFINED):
            continue
        if kind in ('param',) and (n in TS_RESERVED or n in ('self', 'readonly')):
            continue
        out.append(n)
    return out


IMPORTED = set()
SPECIAL = []


def find_special():
    """Identifiers that occur as string constants in the transpiler: whatever it treats specially is worth a trial."""
    with open(os.path.join(common.TREE, 'ts2pythonParser.py'), encoding='utf-8') as f:
        tree = ast.parse(f.read())
    found = {n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    SPECIAL.extend(sorted(n for n in found if re.fullmatch(r'[a-zA-Z]\w*', n) and len(n) < 30 and n not in ('true', 'false', 'constructor')))


def find_imported():
    """Names bound by the header of generated modules."""
    code, _ = common.transpile('interface Qq { a: string; }\n', {})
    IMPORTED.update(re.findall(r'\w+', code[:code.find('##### BEGIN')]))
    IMPORTED.difference_update(('Generated', 'Set'))


# ------------------------------------------------------------------ renaming documents

def ren_type(T, kind, o, n):
    if T is None:
        return None
    k = T[0]
    f = lambda t: ren_type(t, kind, o, n)
    if k == 'ref':
        return (k, n) if kind in ('decl', 'tparam') and T[1] == o else T
    if k in ('arr', 'par'):
        return (k, f(T[1]))
    if k in ('tup', 'uni'):
        return (k, tuple(f(t) for t in T[1]))
    if k == 'map':
        return (k, T[1], f(T[2]))
    if k == 'app':
        return (k, n if kind == 'decl' and T[1] == o else T[1], tuple(f(t) for t in T[2]))
    if k == 'anon':
        return (k, tuple(ren_member(m, kind, o, n) for m in T[1]))
    if k == 'fun':
        return (k, tuple((n if kind == 'param' and p == o else p, f(t)) for p, t in T[1]), f(T[2]))
    return T


def ren_params(ps, kind, o, n):
    return tuple((n if kind == 'param' and p[0] == o else p[0], p[1], ren_type(p[2], kind, o, n)) for p in ps)


def ren_member(m, kind, o, n):
    if m[0] == '()':
        return ('()', n if kind == 'member' and m[1] == o else m[1], m[2], ren_params(m[3], kind, o, n),
                ren_type(m[4], kind, o, n))
    return (n if kind == 'member' and m[0] == o else m[0], m[1], ren_type(m[2], kind, o, n))


def ren_decl(d, kind, o, n):
    k = d[0]
    name = n if kind == 'decl' and d[1] == o else d[1]
    tps = lambda ts: tuple(n if kind == 'tparam' and t == o else t for t in ts)
    if k == 'iface':
        return (k, name, tps(d[2]), tuple(ren_type(b, kind, o, n) for b in d[3]),
                tuple(ren_member(m, kind, o, n) for m in d[4]))
    if k == 'alias':
        return (k, name, tps(d[2]), ren_type(d[3], kind, o, n))
    if k in ('enum', 'cns'):
        return (k, name, tuple(((n if kind == 'item' and i[0] == o else i[0]),) + tuple(i[1:]) for i in d[2]))
    if k == 'const':
        return (k, name) + tuple(d[2:])
    return (k, name, ren_params(d[2], kind, o, n), ren_type(d[3], kind, o, n))


def rename(doc, kind, o, n):
    return tuple(ren_decl(d, kind, o, n) for d in doc)


def identifiers(doc):
    """Sorted [(kind, name)] of everything that is declared."""
    res = set()

    def typ(T):
        if T is None:
            return
        if T[0] == 'anon':
            for m in T[1]:
                member(m)
        elif T[0] == 'fun':
            for p, t in T[1]:
                res.add(('param', p))
                typ(t)
            typ(T[2])
        elif T[0] in ('arr', 'par'):
            typ(T[1])
        elif T[0] in ('tup', 'uni'):
            for t in T[1]:
                typ(t)
        elif T[0] == 'map':
            typ(T[2])
        elif T[0] == 'app':
            for t in T[2]:
                typ(t)

    def params(ps):
        for p in ps:
            res.add(('param', p[0]))
            typ(p[2])

    def member(m):
        if m[0] == '()':
            res.add(('member', m[1]))
            params(m[3])
            typ(m[4])
        else:
            res.add(('member', m[0]))
            typ(m[2])
    for d in doc:
        res.add(('decl', d[1]))
        if d[0] in ('iface', 'alias'):
            res.update(('tparam', t) for t in d[2])
        if d[0] == 'iface':
            for m in d[4]:
                member(m)
        elif d[0] == 'alias':
            typ(d[3])
        elif d[0] in ('enum', 'cns'):
            res.update(('item', i[0]) for i in d[2])
        elif d[0] == 'func':
            params(d[2])
            typ(d[3])
    return sorted(res)


# ------------------------------------------------------------------ renaming descriptions

def ren_desc(x, o, n):
    if isinstance(x, tuple):
        if x[:1] == ('Lit',) or x[:1] == ('py',):
            return x
        return tuple(ren_desc(y, o, n) for y in x)
    if isinstance(x, str) and o in x:
        return '.'.join(n if p == o else p for p in x.split('.'))
    return x


def canon(x):
    if not isinstance(x, tuple):
        return x
    x = tuple(canon(y) for y in x)
    if x and x[0] in ('U', 'rec', 'td', 'class', 'dispatch'):
        x = tuple(tuple(sorted(y, key=repr)) if isinstance(y, tuple) else y for y in x)
    return x


def hide_tvars(x, new):
    """A type parameter that bears the name of a type may get another name in the generated module."""
    if not isinstance(x, tuple):
        return x
    if len(x) == 2 and x[0] == 'tv' and x[1].rstrip('_') == new.rstrip('_'):
        return ('tv', '*')
    return tuple(hide_tvars(y, new) for y in x)


def refers(d, name):
    return repr(('ref', name)) in repr(d[2:]) or repr(('app', name))[:-1] in repr(d[2:])


MARK = 'Qqqident'


def run_case(case):
    spec, ci, kind, old, news = case
    shadow = kind == 'shadow'
    if shadow:
        kind = 'tparam'
    cfg = spaces.CONFIGS[ci]
    doc = docs.build(*spec)
    ref_doc = rename(doc, kind, old, MARK)
    mod, code, fail = docsem.compile_and_load(tm.ts_doc(ref_doc), cfg)
    if fail:
        return dict(fail=[fail], shown=tm.ts_doc(ref_doc))
    ref = docs.describe(mod, ref_doc)
    common.unload(mod)
    n, outs, fails = 1, set(), []
    methods = {m[1] for d in doc if d[0] == 'iface' for m in d[4] if m[0] == '()'}
    used = {i for k, i in identifiers(doc) if k == kind or (kind in ('decl', 'tparam') and k in ('decl', 'tparam'))}
    for name in news:
        new = name + '_' if keyword.iskeyword(name) else name      # Python keywords get an underscore
        if new in used and not shadow:
            continue
        d2 = rename(doc, kind, old, new)
        mod, code, fail = docsem.compile_and_load(tm.ts_doc(rename(doc, kind, old, name)), cfg)
        n += 1
        if not fail:
            desc = {k: canon(v) for k, v in docs.describe(mod, d2).items()}
            unres = docs.unresolved(mod, d2)
            common.unload(mod)
            want = {(new if k == MARK else k): canon(ren_desc(v, MARK, new)) for k, v in ref.items()}
            if kind == 'tparam':
                desc, want = ({k: canon(hide_tvars(v, new)) for k, v in x.items()} for x in (desc, want))
            if desc != want:
                fail = diff(want, desc)
            elif unres:
                fail = unres[0]
        outs.add(f'{spec}{kind}{new}')
        if fail:
            key = 'item-reserved-by-enum' if kind == 'item' and (new == 'mro' or re.fullmatch('_.*_', new)) else \
                'leading-double-underscore' if new.startswith('__') else None
            if kind == 'member' and old in methods and (new in IMPORTED or new in tm.env_of(doc) or
                                                        hasattr(builtins, new)):
                key = 'method-named-like-type'
            fails.append((key, f'{kind} {old} renamed to {name}: {fail}'))
            if key is None:
                return dict(fail=fails, n=n,
                            shown=tm.ts_doc(d2) + '\n' + str(cfg) + '\n' + common.body(code or ''))
    return dict(fail=fails, n=n, outcomes=outs)


def main():
    run = common.Run('C09')
    common.prepare()
    find_imported()
    find_special()
    ctx_ids = set(identifiers(docs.CTX1 + docs.CTX2))
    cases = []
    one, _, _ = docs.states(1, ctxs=docs.CTXS if common.THOROUGH else ('around', 'after'))
    for i, spec in enumerate(one):
        doc = docs.build(*spec)
        for j, (kind, old) in enumerate(identifiers(doc)):
            ns = names(kind)
            if kind == 'tparam':        # names of types that are not used in the generic declaration
                hidden = tuple(d[1] for d in doc if not any(refers(g, d[1]) for g in doc
                                                            if g[0] in ('iface', 'alias') and old in g[2]))
                cases.append((spec, (i * 5 + j + common.SEED) % len(spaces.CONFIGS), 'shadow', old, hidden))
            # names of classes generated for anonymous interfaces
            if kind == 'decl':
                code, _ = common.transpile(tm.ts_doc(doc), dict(RenderAnonymous='toplevel'))
                ns += [x for x in re.findall(r'class (\w+)', common.body(code)) if x not in tm.env_of(doc)]
            if not common.THOROUGH:
                step = 30 if (kind, old) in ctx_ids else 10
                keep = (i * 7 + j + common.SEED) % step
                ns = [x for k, x in enumerate(ns) if k % step == keep or x.startswith('S1_')]
            for x in ('__x', 'mro', '_x_'):      # known findings: each on its own
                if x in ns:
                    ns.remove(x)
                if kind == 'item' or x == '__x' and (i + j) % 10 == 0:
                    cases.append((spec, (i * 5 + j + common.SEED) % len(spaces.CONFIGS), kind, old, (x,)))
            for k in range(0, len(ns), 50):
                cases.append((spec, (i * 5 + j + common.SEED) % len(spaces.CONFIGS), kind, old, tuple(ns[k:k + 50])))
    run.states = run.transitions = sum(len(c[4]) for c in cases)
    common.execute(run, cases, run_case, chunk=4)
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(kind=c[2], identifier=c[3], renamed_to=list(c[4][:8]), document=repr(c[0])))
    run.rule = ('states: (document of the declaration menu, identifier, new name), one identifier renamed at a time; '
                'traces: the description of the generated module must be the renamed description of the module '
                'generated with a neutral identifier')
    return run
