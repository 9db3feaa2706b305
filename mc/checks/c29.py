"""C29: options have exactly their documented effect on the notation."""
import ast
import io
import tokenize

import common
import docs
import tsmodel as tm
from checks import c01


def classes_of(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]


def expressions(tree):
    """All annotations, values of assignments and base classes, with the strings
    therein parsed as expressions (except those within Literal[...])."""
    todo, res = [tree], []
    while todo:
        n = todo.pop()
        res.append(n)
        if isinstance(n, ast.Subscript) and getattr(n.value, 'id', '') == 'Literal':
            res.append(n.value)
            continue
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            try:
                todo.append(ast.parse(n.value, mode='eval').body)
            except SyntaxError:
                pass
            continue
        todo.extend(ast.iter_child_nodes(n))
    return res


def with_methods(doc):
    """Names of interfaces that have methods or extend one that has."""
    env, res = tm.env_of(doc), set()
    changed = True
    while changed:
        changed = False
        for d in doc:
            if d[0] == 'iface' and d[1] not in res:
                if any(m[0] == '()' for m in d[4]) or any(b[1] in res for b in d[3]):
                    res.add(d[1])
                    changed = True
    return res


def judge(doc, cfg, code):
    body = common.body(code)
    tree = ast.parse(body)
    fails = []
    enums = {d[1] for d in doc if d[0] in ('enum', 'cns')}
    plain = with_methods(doc)
    want = [ast.unparse(ast.parse(cfg['ClassDecorator'].strip().lstrip('@'), mode='eval'))] if cfg['ClassDecorator'] else []
    n = 0
    for c in classes_of(tree):
        got = [ast.unparse(x) for x in c.decorator_list]
        n += 1
        if got != (want if c.name not in enums else []):
            fails.append(f'class {c.name} has the decorators {got}')
    nodes = expressions(tree)
    ids = {x.id for x in nodes if isinstance(x, ast.Name)} | {x.attr for x in nodes if isinstance(x, ast.Attribute)}
    strings = {d[1] for d in doc if d[0] == 'alias'}
    if not cfg['UseLiteralType'] and 'Literal' in ids:
        fails.append('uses Literal although it is switched off')
    if not cfg['UseNotRequired'] and 'NotRequired' in ids:
        fails.append('uses NotRequired although it is switched off')
    if cfg['UseNotRequired']:
        for x in nodes:
            if isinstance(x, ast.ClassDef) and any(k.arg == 'total' for k in x.keywords):
                fails.append(f'class {x.name} has the keyword total beside NotRequired')
    for x in nodes:
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr) and not cfg['UseTypeUnion']:
            fails.append(f'uses {ast.unparse(x)} although the new notation of unions is switched off')
        elif cfg['UseTypeUnion'] and isinstance(x, ast.Subscript) and getattr(x.value, 'id', '') == 'Union':
            inner = expressions(x.slice)
            if not any(isinstance(y, ast.Constant) and isinstance(y.value, str) for y in ast.walk(x.slice)) and \
                    not any(isinstance(y, ast.Name) and y.id in strings for y in inner):
                fails.append(f'uses {ast.unparse(x)} although the new notation of unions is switched on')
    for c in classes_of(tree):
        d = next((d for d in doc if d[1] == c.name and d[0] == 'enum'), None)
        if d is not None:
            bases = [ast.unparse(b) for b in c.bases]
            if cfg['UseEnum'] != bool(bases):
                fails.append(f'enum {c.name} has the bases {bases}')
    if not cfg['KeepMultilineComments']:
        lines = [t.string for t in tokenize.generate_tokens(io.StringIO(body).readline)
                 if t.type == tokenize.COMMENT]
        if lines:
            fails.append(f'contains the comments {lines[:3]}')
    # base class
    mod = common.load_module(code)
    import sys
    Base = sys.modules['verif_basemod'].Base
    anon = [c.name for c in tree.body if isinstance(c, ast.ClassDef) and c.name not in tm.env_of(doc)]
    todo = [(k, mod.__dict__[k]) for k in anon] + \
        [(d[1], mod.__dict__[d[1]]) for d in doc if d[0] == 'iface']
    while todo:
        name, c = todo.pop()
        if not isinstance(c, type) or name in enums:
            continue
        todo += [(k, v) for k, v in vars(c).items() if isinstance(v, type) and v.__module__ == c.__module__]
        if name in plain or any(callable(v) and not isinstance(v, type) and not k.startswith('__')
                                for k, v in vars(c).items()):
            continue        # interfaces with methods are not derived from the base class
        n += 1
        if cfg['BaseClassName'] == 'TypedDict':
            if not tm.is_td(c):
                fails.append(f'{name} is not a TypedDict')
        else:
            if tm.is_td(c):
                fails.append(f'{name} is a TypedDict')
            if cfg['BaseClassName'] and not issubclass(c, Base):
                fails.append(f'{name} is not derived from the base class')
    common.unload(mod)
    return n, fails


def run_case(case):
    spec, ci = case
    c01.setup()
    cfg = c01.CONFIGS[ci]
    doc = c01.document(spec)
    text = tm.ts_doc(doc)
    try:
        code, errors = common.transpile(text, cfg)
        if common.has_error(errors):
            return dict(n=1, outcomes=['rejected'])
        n, fails = judge(doc, cfg, code)
    except Exception as e:
        return dict(fail=[f'{common.describe_exc(e)} under {cfg}'], n=1, outcomes=['raised'], shown=text)
    return dict(fail=fails[:3], n=n, outcomes=[common.body(code)[:3000]],
                shown=text + '\n' + str(cfg) + '\n' + common.body(code) if fails else '')


def main():
    run = common.Run('C29')
    common.prepare()
    one, tr1, _ = docs.states(1)
    two, tr2, _ = docs.states(2)
    import hierarchy
    hs, tr3 = hierarchy.states(3)
    nc = len(c01.CONFIGS)
    cases = []
    for i, s in enumerate(one):
        for c in range(nc):
            if common.THOROUGH or (c + i) % 16 == common.SEED % 16:
                cases.append((('menu',) + s, c))
    step = 3 if common.THOROUGH else 0.5
    for i, s in enumerate(two):
        if len(s[0]) == 2 and (step >= 1 or i % 2 == common.SEED % 2):
            for j in range(max(1, int(step))):
                cases.append((('menu',) + s, (i * 37 + j * 101 + 5 + common.SEED) % nc))
    for i, h in enumerate(hs):
        for j in range(4 if common.THOROUGH else 1):
            cases.append((('hier', h), (i * 53 + j * 17 + common.SEED) % nc))
    run.states, run.transitions = len(two) + len(hs), tr2 + tr3
    run.exhaustive = False
    common.execute(run, cases, run_case)
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(document=tm.ts_doc(c01.document(c[0]))[-600:], options=c01.CONFIGS[c[1]]))
    run.rule = ('states: documents of up to two items of the declaration menu and interface hierarchies; traces: classes '
                'inspected in the module generated under an option set')
    return run
