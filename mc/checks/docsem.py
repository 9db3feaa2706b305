"""Shared oracle: the meaning of an imported generated module versus the model."""
import typing
import enum
import keyword

import common
import tsmodel as tm


def compile_and_load(doc_text, cfg):
    """-> (module|None, code, failure text|None)"""
    try:
        code, errors = common.transpile(doc_text, cfg)
    except Exception as e:
        return None, '', 'transpiler raised ' + common.describe_exc(e)
    if common.has_error(errors):
        return None, code, f'document rejected: {[m for c, p, m in errors if c >= 1000][:3]}'
    try:
        mod = common.load_module(code)
    except Exception as e:
        return None, code, f'import of generated module fails: {common.describe_exc(e)}'
    return mod, code, None


def check_interfaces(doc, mod, cfg, hints=True, types=True):
    """Compares every interface of the document with its generated class."""
    env = tm.env_of(doc)
    ns = mod.__dict__
    names = tm.names_of(doc)
    fails = []
    for d in doc:
        if d[0] != 'iface':
            continue
        name = d[1]
        tvs = d[2]
        c = ns.get(name)
        if c is None:
            fails.append(f'interface {name} has no class')
            continue
        if any(m[0] == '()' for m in d[4]):
            continue
        if not tm.is_td(c):
            fails.append(f'{name} is not a TypedDict')
            continue
        expected = tm.all_members(name, env)
        got = dict((m[0], m) for m in tm.td_members(c, ns, names))
        if set(expected) != set(got):
            fails.append(f'{name}: keys {sorted(got)} instead of {sorted(expected)}')
            continue
        if set(c.__required_keys__) | set(c.__optional_keys__) != set(expected):
            fails.append(f'{name}: required {sorted(c.__required_keys__)} and optional '
                         f'{sorted(c.__optional_keys__)} keys instead of {sorted(expected)}')
        for key, m in expected.items():
            _, opt, norm = tm.member_norm(m, env, cfg, tvs)
            _, gopt, gnorm = got[key]
            if opt != gopt and opt != '?':
                fails.append(f'{name}.{key}: optional={gopt} instead of {opt}')
            if types and not tm.same(norm, gnorm) and not inherited_generic(d, m, env):
                fails.append(f'{name}.{key}: means {gnorm} instead of {norm}')
        if hints:
            try:
                typing.get_type_hints(c)
            except Exception as e:
                fails.append(f'annotations of {name} cannot be evaluated: {common.describe_exc(e)}')
    return fails


def inherited_generic(d, m, env):
    """Type parameters of a base refer to the base's own parameters."""
    return m not in d[4] and any(b[0] == 'app' or env.get(b[1], ('',) * 3)[2] for b in d[3])


def check_aliases(doc, mod, cfg):
    env = tm.env_of(doc)
    ns = mod.__dict__
    names = tm.names_of(doc)
    fails = []
    for d in doc:
        if d[0] == 'alias':
            if d[1] not in ns:
                fails.append(f'alias {d[1]} missing')
                continue
            exp = tm.sem(('ref', d[1]), env, cfg)
            got = tm.pynorm(d[1], ns, names)
            if not tm.same(exp, got):
                fails.append(f'alias {d[1]}: means {got} instead of {exp}')
    return fails


def check_enums(doc, mod, cfg):
    ns = mod.__dict__
    fails = []
    for d in doc:
        if d[0] == 'enum' or d[0] == 'cns':
            c = ns.get(d[1])
            if not isinstance(c, type):
                fails.append(f'enumeration {d[1]} missing')
                continue
            is_enum = issubclass(c, enum.Enum)
            if is_enum != (d[0] == 'cns' or bool(cfg.get('UseEnum', True))):
                fails.append(f'{d[1]} is {"an" if is_enum else "no"} Enum')
            if is_enum:
                got = {n: m.value for n, m in c.__members__.items()}
            else:
                got = {n: v for n, v in c.__dict__.items() if not n.startswith('__')}
            exp = {}
            for item in d[2]:
                exp[item[0] + '_' if keyword.iskeyword(item[0]) else item[0]] = item[1]
            if list(got) != list(exp):
                fails.append(f'{d[1]}: items {list(got)} instead of {list(exp)}')
                continue
            for n, v in exp.items():
                if v is not None and repr(got[n]) != repr(v):
                    fails.append(f'{d[1]}.{n} = {got[n]!r} instead of {v!r}')
            vals = [repr(v) for n, v in got.items() if exp[n] is None]
            if len(set(vals)) != len(vals):
                fails.append(f'{d[1]}: values are not distinct: {vals}')
            if is_enum and not issubclass(c, enum.IntEnum) and d[2] and \
                    all(isinstance(i[1], int) for i in d[2]):
                fails.append(f'{d[1]} is no IntEnum')
        elif d[0] == 'const':
            if d[1] not in ns:
                fails.append(f'constant {d[1]} missing')
            elif repr(ns[d[1]]) != repr(d[3]):
                fails.append(f'constant {d[1]} = {ns[d[1]]!r} instead of {d[3]!r}')
    return fails
