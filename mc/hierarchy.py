"""Interface hierarchies: every inheritance graph and member assignment up to a
bound, enumerated exhaustively."""
import itertools

import tsmodel as tm

TYPES = (('b', 'string'), ('b', 'integer'), ('uni', (('b', 'string'), ('b', 'null'))), ('ref', 'Z'))


def document(h):
    """h: tuple of (bases, members); bases: indices of earlier interfaces,
    members: (key, flags, index of type)."""
    decls = []
    for i, (bases, members) in enumerate(h):
        decls.append(('iface', f'I{i}', (), tuple(('ref', f'I{b}') for b in bases),
                      tuple((k, f, TYPES[t]) for k, f, t in members)))
    decls.append(('iface', 'Z', (), (), (('zx', '', ('b', 'boolean')),)))
    return tuple(decls)


def inherited(h, i):
    """key -> (flags, type) including inherited members; None on conflict."""
    res = {}
    for b in h[i][0]:
        m = inherited(h, b)
        if m is None:
            return None
        for k, v in m.items():
            if k in res and res[k] != v:
                return None
            res[k] = v
    for k, f, t in h[i][1]:
        if k in res and 'o' in f and 'o' not in res[k][0]:
            return None         # TypeScript: required members stay required
        if k in res and t != res[k][1] and not (res[k][1] == 2 and t == 0):
            return None         # only narrowing: string | null -> string
        res[k] = (f, t)
    return res


def member_sets(i, rich):
    own = f'm{i}'
    sets = [(), ((own, '', 0),), ((own, 'o', 1),), ((own, '', 2), ('x', '', 0)), (('x', 'o', 2),)]
    if rich:
        sets += [((own, 'o', 3), ('x', '', 2)), (('x', 'o', 0),)]
    return sets


def states(n, rich=False):
    """All hierarchies of exactly 1..n interfaces."""
    seen, transitions = [], 0
    frontier = [()]
    for i in range(n):
        nxt = []
        for h in frontier:
            idx = range(len(h))
            base_sets = [()] + [c for r in (1, 2) for c in itertools.permutations(idx, r)]
            for b in base_sets:
                for ms in member_sets(i, rich):
                    transitions += 1
                    t = h + ((b, ms),)
                    if inherited(t, i) is not None:
                        nxt.append(t)
        seen.extend(nxt)
        frontier = nxt
    return seen, transitions
