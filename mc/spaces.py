"""Bounded spaces of type terms and documents, explored breadth first."""

from common import bfs

STR, NUM, INT, BOOL, NULL, ANY, OBJ = (('b', n) for n in
    ('string', 'number', 'integer', 'boolean', 'null', 'any', 'object'))
A, Z, E, F, L, M = (('ref', n) for n in 'AZEFLM')

# Context declarations: A, E, L precede the subject; Z, F, M follow it.
CTX_BEFORE = (
    ('iface', 'A', (), (), (('ax', '', STR), ('ay', 'o', INT))),
    ('enum', 'E', (('one', 1), ('two', 2))),
    ('alias', 'L', (), ('uni', (STR, INT))),
)
CTX_AFTER = (
    ('iface', 'Z', (), (), (('zx', '', BOOL),)),
    ('enum', 'F', (('red', 'r'), ('blue', 'b'))),
    ('alias', 'M', (), ('arr', STR)),
)

LEAVES = (STR, NUM, INT, BOOL, NULL, ANY, OBJ, A, Z, E, F, L, M,
          ('lit', 'x'), ('lit', 3), ('lit', True), ('lit', 1.5), ('anon', ()))
SIBLINGS = (STR, A, Z, NULL, ('lit', 'y'))


def grow(t, siblings=SIBLINGS):
    """All type terms derivable from t by one more constructor."""
    yield ('arr', t)
    yield ('tup', (t,))
    yield ('map', 'string', t)
    yield ('anon', (('p', '', t),))
    yield ('anon', (('p', 'o', t),))
    if t[0] not in ('par',):
        yield ('par', t)
    for s in siblings:
        yield ('tup', (t, s))
        yield ('tup', (s, t))
        if t[0] == 'uni':
            yield ('uni', t[1] + (s,))
        else:
            yield ('uni', (t, s))
            yield ('uni', (s, t))
    yield ('anon', (('p', '', t), ('q', 'o', STR)))
    yield ('anon', (('q', '', ('anon', (('p', '', STR),))), ('p', '', t)))
    yield ('uni', (('anon', (('u', '', STR),)), t)) if t[0] != 'uni' else ('arr', t)


def valid(t):
    """Terms whose TypeScript notation the documented grammar covers, and which
    have a well defined meaning."""
    k = t[0]
    if k == 'uni':
        if any(x[0] == 'uni' for x in t[1]):
            return False
        return all(valid(x) for x in t[1]) and len(set(t[1])) == len(t[1])
    if k in ('arr', 'par', 'vtup'):
        return valid(t[1])
    if k == 'tup':
        return all(valid(x) for x in t[1])
    if k == 'map':
        return valid(t[2])
    if k in ('anon', 'ltup'):
        return all(valid(m[2]) for m in t[1])
    return True


def terms(depth, leaves=LEAVES, siblings=SIBLINGS, max_states=None):
    return bfs(list(leaves), lambda t: (x for x in grow(t, siblings) if valid(x)),
               max_depth=depth, max_states=max_states)


def labelled(ts):
    """Labelled tuples that contain a type term, alone and within other terms."""
    for t in ts:
        base = [('ltup', (('a', '', t),)), ('ltup', (('a', '', STR), ('b', 'o', t))), ('ltup', (('a', 'o', t), ('b', 'o', Z)))]
        yield from base
        yield ('ltup', (('a', '', t), ('b', '', A), ('c', 'o', NULL)))
        if t in LEAVES:
            for x in base[1:]:
                yield from (('uni', (x, NULL)), ('uni', (Z, x)), ('map', 'string', x), ('tup', (x, t)), ('arr', x),
                            ('anon', (('p', 'o', x), ('q', '', t))), ('ltup', (('c', '', x), ('d', 'o', x))))


def size(t):
    k = t[0]
    if k in ('arr', 'par', 'vtup'):
        return 1 + size(t[1])
    if k in ('tup', 'uni'):
        return 1 + sum(size(x) for x in t[1])
    if k == 'map':
        return 1 + size(t[2])
    if k in ('anon', 'ltup'):
        return 1 + sum(size(m[2]) if m[2] else 1 for m in t[1])
    return 1


def wrap(subject):
    """Puts subject declarations between the context declarations."""
    return CTX_BEFORE + tuple(subject) + CTX_AFTER


POSITIONS = ('member', 'optional', 'alias', 'second', 'derived')


def subject_doc(t, pos):
    """A document which contains the type term in the given position."""
    if pos == 'member':
        return wrap([('iface', 'S', (), (), (('m', '', t),))])
    if pos == 'optional':
        return wrap([('iface', 'S', (), (), (('m', 'o', t),))])
    if pos == 'alias':
        return wrap([('alias', 'T', (), t), ('iface', 'S', (), (), (('m', '', ('ref', 'T')),))])
    if pos == 'second':
        return wrap([('iface', 'S', (), (), (('k', '', ('anon', (('p', '', INT),))),
                                             ('m', '', t), ('n', 'o', t)))])
    if pos == 'derived':
        return wrap([('iface', 'B', (), (), (('b', 'o', STR), ('m', '', t))),
                     ('iface', 'S', (), (('ref', 'B'), ('ref', 'A')), (('s', '', BOOL),))])
    raise ValueError(pos)


def configs(anon=('local', 'toplevel', 'functional'), union=(False, True), lit=(False, True),
            notreq=(False, True), variadic=(False,), enum=(True,)):
    for a in anon:
        for u in union:
            for li in lit:
                for n in notreq:
                    for v in variadic:
                        for e in enum:
                            yield dict(RenderAnonymous=a, UseTypeUnion=u, UseLiteralType=li,
                                       UseNotRequired=n, UseVariadicGenerics=v, UseEnum=e)


CONFIGS = list(configs())
# option sets the command line can select through the compatibility switch
COMPAT = [dict(), dict(UseLiteralType=True), dict(UseLiteralType=True, UseTypeUnion=True),
          dict(UseLiteralType=True, UseTypeUnion=True, UseNotRequired=True,
               UseVariadicGenerics=True)]
