"""C31: the output can be used where the package ts2python is not installed."""
import ast
import contextlib
import io
import sys

import common
import docs
import hierarchy
import spaces
import tsmodel as tm
from checks import c01

PARTS = ('typeddict_shim', 'singledispatch_shim', 'typing_extensions', 'json_validation', 'ts2pythonParser')
CONFIGS = list(spaces.configs(variadic=(False, True)))


@contextlib.contextmanager
def without(names):
    """Makes the modules of these names impossible to import."""
    saved = {n: sys.modules[n] for n in names if n in sys.modules}
    for n in names:
        sys.modules[n] = None
    try:
        yield
    finally:
        for n in names:
            sys.modules.pop(n, None)
        sys.modules.update(saved)


PACKAGE = ('ts2python',) + tuple('ts2python.' + p for p in PARTS)
# what is missing: everything, or only one of the two modules generated code refers to
ABSENT = {'package': PACKAGE, 'typeddict_shim': ('ts2python.typeddict_shim',),
          'singledispatch_shim': ('ts2python.singledispatch_shim',)}


def overloaded(doc):
    """Whether there are functions with several signatures: functools cannot register types by name."""
    functions = [d[1] for d in doc if d[0] == 'func']
    methods = [[m[1] for m in d[4] if m[0] == '()'] for d in doc if d[0] == 'iface']
    return any(len(ns) != len(set(ns)) for ns in methods + [functions])


def undispatched(x):
    """A description without the classes that functions have been registered for."""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'dispatch':
            return 'dispatch', tuple(sorted((impl for _, impl in x[1]), key=repr))
        return tuple(undispatched(y) for y in x)
    return x


def lenient(x):
    """A description without what may be missing in anonymous interfaces."""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'rec':
            return 'rec', tuple((k, lenient(t)) for k, _, t in x[1])
        return tuple(lenient(y) for y in x)
    return x


def load(code, names):
    notes = io.StringIO()
    with without(names), contextlib.redirect_stdout(notes):
        return common.load_module(code), notes.getvalue()


def imports(code):
    """Names of the modules that are imported anywhere in the code."""
    for n in ast.walk(ast.parse(code)):
        if isinstance(n, ast.Import):
            yield from (a.name for a in n.names)
        elif isinstance(n, ast.ImportFrom):
            yield n.module or ''
            yield from (a.name for a in n.names)


def fields(c, mod, names):
    """Own fields with their types, regardless of which may be missing."""
    res = []
    for k, v in tm.own_hints(c).items():
        n = tm.pynorm(v, mod.__dict__, names)
        res.append((k, n[1] if n[0] == 'NotRequired' else n))
    return tuple(sorted(res, key=repr))


def pairs(ref, mod, name, stack=()):
    """(name, class with the package, class without it) of a class and of those declared within."""
    yield name, ref, mod
    for k, v in list(vars(ref).items()):
        if isinstance(v, type) and v.__module__ == ref.__module__ and v not in stack:
            yield from pairs(v, vars(mod).get(k), f'{name}.{k}', stack + (v,))


def compare(doc, ref, mod, standard):
    """Differences between the declarations of the module as loaded with and without the package."""
    fails = []
    a, b = docs.describe(ref, doc), docs.describe(mod, doc)
    names = tm.names_of(doc)
    view = (lambda x: x) if standard else lenient
    for d in doc:
        n = d[1]
        x, y = view(undispatched(a.get(n))), view(undispatched(b.get(n)))
        if d[0] != 'iface' or x is None or x[0] == 'missing':
            if x != y:
                fails.append(f'{n} is {y} without the package and {x} with it')
            continue
        if y[0] == 'missing':
            fails.append(f'{n} is missing without the package')
            continue
        for q, c, e in pairs(getattr(ref, n), getattr(mod, n), n):
            if not isinstance(e, type):
                fails.append(f'{q} is {e!r} without the package')
                continue
            if not standard and not tm.is_td(e) and issubclass(e, dict):
                e_fields = dict(view(fields(e, mod, names)))        # annotations of this class alone
                c_fields = dict(view(fields(c, ref, names)))
                wrong = {k: v for k, v in e_fields.items() if c_fields.get(k) != v}
                own = [k for k, _ in e_fields.items()]
                if wrong or not own and c_fields and len(c.__mro__) < 3:
                    fails.append(f'{q} has the fields {wrong or own} without the package and {c_fields} with it')
                continue
            u, v = view(fields(c, ref, names)), view(fields(e, mod, names))
            if u != v:
                fails.append(f'{q} has the fields {v} without the package and {u} with it')
            if tm.is_td(c) != tm.is_td(e):
                fails.append(f'{q} is {"a" if tm.is_td(e) else "no"} TypedDict without the package')
            elif tm.is_td(c):
                if standard:
                    if (c.__required_keys__, c.__optional_keys__) != (e.__required_keys__, e.__optional_keys__):
                        fails.append(f'{q} requires {sorted(e.__required_keys__)} of {sorted(v)} without the package and '
                                     f'{sorted(c.__required_keys__)} with it')
                elif not e.__required_keys__ <= c.__required_keys__:
                    fails.append(f'{q} requires {sorted(e.__required_keys__ - c.__required_keys__)} without the package only')
        if x[0] == 'class' and y[0] == 'class' and x[2] != y[2]:
            fails.append(f'{n} has the methods {y[2]} without the package and {x[2]} with it')
    return fails


def shape(mod):
    """Everything the module declares, with annotations as written."""
    return {k: repr(getattr(v, '__annotations__', v)).replace(mod.__name__, '') for k, v in vars(mod).items()
            if getattr(v, '__module__', None) == mod.__name__ and not k.startswith('_') and k != 'GenericTypedDict'}


def standard_type(use, form):
    return use.replace('%s', form) + '\n'


def run_case(case):
    spec, ci = case
    cfg = CONFIGS[ci]
    doc = () if spec[0] == 'type' else c01.document(spec)
    text = standard_type(*spec[1:]) if spec[0] == 'type' else tm.ts_doc(doc)
    try:
        code, errors = common.transpile(text, cfg)
        if common.has_error(errors):
            return dict(n=1, outcomes=['rejected'])
        ref = common.load_module(code)
    except Exception as e:      # subject of C01
        return dict(n=1, outcomes=['raised'])
    fails, n = [], 0
    for absent, names in ABSENT.items():
        if absent == 'typeddict_shim' and cfg['UseNotRequired'] and any('typeddict_shim' in i for i in imports(code)):
            fails.append('refers to the typeddict_shim')
        n += 1
        try:
            mod, notes = load(code, names)
        except NameError as e:
            # functools cannot register types that are declared later
            if absent == 'typeddict_shim' or not overloaded(doc) or e.name not in {d[1] for d in doc}:
                fails.append(f'[without {absent}] module does not load: {common.describe_exc(e)}')
            continue
        except Exception as e:
            fails.append(f'[without {absent}] module does not load: {common.describe_exc(e)}')
            continue
        if absent == 'typeddict_shim' and cfg['UseNotRequired'] and notes:
            fails.append(f'misses the typeddict_shim: {notes}')
        standard = cfg['UseNotRequired'] or absent == 'singledispatch_shim'
        fails += [f'[without {absent}] {f}' for f in compare(doc, ref, mod, standard)]
        if not doc and standard and shape(ref) != shape(mod):
            fails.append(f'[without {absent}] {shape(mod)} instead of {shape(ref)}')
        common.unload(mod)
    common.unload(ref)
    return dict(fail=fails[:3], n=n, outcomes=[common.body(code)[:3000]],
                shown=text + '\n' + str(cfg) + '\n' + common.body(code) if fails else '')


def main():
    run = common.Run('C31')
    common.prepare()
    one, tr1, _ = docs.states(1)
    two, tr2, _ = docs.states(2)
    hs, tr3 = hierarchy.states(3)
    nc = len(CONFIGS)
    cases = []
    for i, s in enumerate(one):
        for c in range(nc):
            if common.THOROUGH or (c + i) % 4 == common.SEED % 4:
                cases.append((('menu',) + s, c))
    one_set = set(one)
    rest = [('menu',) + s for s in two if s not in one_set] + [('hier', h) for h in hs]
    for i, s in enumerate(rest):
        if common.THOROUGH or i % 4 == common.SEED % 4:
            for j in range(3 if common.THOROUGH else 1):
                cases.append((s, (i * 37 + j * 101 + common.SEED) % nc))
    for i, name in enumerate(c01.ELSEWHERE):
        for j, use in enumerate(c01.USES):
            for k, form in enumerate((name,) + ((name + '<string>', name + '<Other, integer>') if name not in c01.NOT_GENERIC else ())):
                if not (k == 2 and name in c01.ONE_PARAMETER):
                    for c in range(0, nc, 5 if common.THOROUGH else 24):
                        cases.append((('type', use, form), (i * 7 + j * 5 + k + c + common.SEED) % nc))
    run.states = len({c[0] for c in cases})
    run.transitions = tr2 + tr3
    common.execute(run, cases, run_case)
    run.extra['documents_transpiled'] = len(cases)
    run.extra['option_sets'] = nc
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(text=(standard_type(*c[0][1:]) if c[0][0] == 'type' else tm.ts_doc(c01.document(c[0])))[:1500], config=CONFIGS[c[1]]))
    run.rule = ('states: all documents of the menu up to length 2 and all hierarchies of up to three interfaces and all uses of types of the standard library, '
                'under rotating option sets; each module is loaded with the package, without it and without either of '
                'the two modules it refers to, and what is declared is compared (quick: a quarter of the documents of length 2)')
    return run
