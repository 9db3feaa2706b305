"""Import of the transpiler with sets whose order of iteration is chosen by an explorer.

Every set that the code of ts2pythonParser.py creates - by calling set() or frozenset(), by a
set display or a set comprehension - is replaced by a subclass, whose order of iteration is a
choice point."""
import ast
import itertools
import os
import sys
import types


class Choices:
    """Depth-first enumeration of all sequences of choices (stateless search)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.prefix, self.trace = [], []

    def begin(self):
        self.trace = []

    def choose(self, n):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        c = min(c, n - 1)
        self.trace.append((c, n))
        return c

    def advance(self):
        t = self.trace
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return False
        self.prefix = [c for c, _ in t[:-1]] + [t[-1][0] + 1]
        return True


CHOICES = Choices()
LIMIT = 24          # permutations per iteration, beyond 4 elements: rotations and reversals


def orders(n):
    if n <= 4:
        return list(itertools.permutations(range(n)))
    r = list(range(n))
    res = []
    for k in range(n):
        res.append(tuple(r[k:] + r[:k]))
        res.append(tuple(reversed(r[k:] + r[:k])))
    return res[:LIMIT]


def _key(x):
    return (type(x).__name__, str(getattr(x, 'name', '')), repr(x)[:200] if isinstance(x, (str, int, tuple)) else '')


class _Perm:
    def __iter__(self):
        items = sorted(super().__iter__(), key=_key)
        if len(items) < 2:
            return iter(items)
        o = orders(len(items))
        return iter([items[i] for i in o[CHOICES.choose(len(o))]])


def _wrap(name):
    def op(self, *args):
        r = getattr(super(type(self), self), name)(*args)
        return r if r is NotImplemented else type(self)(r)
    return op


class PermSet(_Perm, set):
    def pop(self):
        for x in self:
            self.remove(x)
            return x
        raise KeyError('pop from an empty set')


class PermFrozenSet(_Perm, frozenset):
    pass


for _cls in (PermSet, PermFrozenSet):
    for _n in ('__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__', '__rsub__', '__rxor__', 'union',
               'intersection', 'difference', 'symmetric_difference', 'copy'):
        setattr(_cls, _n, _wrap(_n))


class Rewrite(ast.NodeTransformer):
    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('PermSet__', ast.Load()), [ast.List(node.elts, ast.Load())], []),
                                 node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(ast.Name('PermSet__', ast.Load()),
                                          [ast.ListComp(node.elt, node.generators)], []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('set', 'frozenset'):
            node.func = ast.copy_location(ast.Name({'set': 'PermSet__', 'frozenset': 'PermFrozenSet__'}[node.func.id],
                                                   ast.Load()), node.func)
        return node


def load(tree_dir):
    path = os.path.join(tree_dir, 'ts2pythonParser.py')
    with open(path, encoding='utf-8') as f:
        src = f.read()
    tree = ast.fix_missing_locations(Rewrite().visit(ast.parse(src, path)))
    mod = types.ModuleType('ts2pythonParser')
    mod.__file__ = path
    mod.__dict__.update(PermSet__=PermSet, PermFrozenSet__=PermFrozenSet)
    sys.modules['ts2pythonParser'] = mod
    exec(compile(tree, path, 'exec'), mod.__dict__)
    return mod
