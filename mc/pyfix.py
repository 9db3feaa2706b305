"""Python modules with annotations in many spellings, built from model terms."""
import copy

import common
import spaces
import tsmodel as tm

HEADER = {
    'shim': 'from ts2python.typeddict_shim import TypedDict, NotRequired\n',
    'typing': 'from typing import TypedDict, NotRequired\n'}
COMMON = '''from typing import Union, Optional, Any, List, Tuple, Dict, Literal
from enum import Enum, IntEnum
'''
STYLES = ('Union', '|', 'Optional', 'builtin')
FLAVOURS = ('shim', 'typing')
FORWARD = {'Z', 'F', 'M', 'S'}


class Builder:
    """Renders type terms as Python annotation text."""

    def __init__(self, style, flavour):
        self.style = style
        self.flavour = flavour
        self.classes = []
        self.count = 0

    def has_forward(self, T):
        k = T[0]
        if k == 'ref':
            return T[1] in FORWARD
        if k in ('arr', 'par', 'vtup'):
            return self.has_forward(T[1])
        if k == 'map':
            return self.has_forward(T[2])
        if k in ('tup', 'uni'):
            return any(self.has_forward(t) for t in T[1])
        return False

    def text(self, T, quote=True):
        """quote: forward references still have to be quoted."""
        k = T[0]
        b = self.style == 'builtin'
        if k == 'b':
            n = tm.PY_BASIC[T[1]]
            return {'Dict': 'dict', 'List': 'list'}.get(n, n) if b else n
        if k == 'lit':
            return f'Literal[{T[1]!r}]'
        if k == 'par':
            return self.text(T[1], quote)
        if k == 'ref':
            return repr(T[1]) if quote and T[1] in FORWARD else T[1]
        if k == 'arr':
            return ('list' if b else 'List') + f'[{self.text(T[1], quote)}]'
        if k == 'vtup':
            return ('tuple' if b else 'Tuple') + f'[{self.text(T[1], quote)}, ...]'
        if k == 'tup':
            return ('tuple' if b else 'Tuple') + \
                '[' + (', '.join(self.text(t, quote) for t in T[1]) or '()') + ']'
        if k == 'map':
            return ('dict' if b else 'Dict') + \
                f"[{tm.PY_BASIC[T[1]]}, {self.text(T[2], quote)}]"
        if k == 'uni':
            parts = T[1]
            if self.style in ('|', 'builtin'):
                if quote and self.has_forward(T):
                    return repr(' | '.join(self.text(t, False) for t in parts))
                return ' | '.join(self.text(t, quote) for t in parts)
            nn = [t for t in parts if t != ('b', 'null')]
            if self.style == 'Optional' and len(nn) < len(parts) and nn:
                if len(nn) == 1:
                    return f'Optional[{self.text(nn[0], quote)}]'
                return f"Optional[Union[{', '.join(self.text(t, quote) for t in nn)}]]"
            return f"Union[{', '.join(self.text(t, quote) for t in parts)}]"
        if k == 'anon':
            self.count += 1
            name = f'Anon{self.count}'
            self.classes.append(self.cls(name, [], T[1]))
            return name
        raise ValueError(T)

    def field(self, m):
        name, flags, T = m
        t = self.text(T if T is not None else ('b', 'any'))
        if 'o' in flags:
            if self.flavour == 'typing':
                t = f'NotRequired[{t}]'
            elif self.style in ('|', 'builtin') and t[0] == t[-1] == "'":
                t = t[:-1] + " | None'"
            else:
                t = f'Optional[{t}]'
        return f'    {name}: {t}\n'

    def cls(self, name, bases, members):
        body = ''.join(self.field(m) for m in members) or '    pass\n'
        return f"class {name}({', '.join(list(bases) + ['TypedDict'])}):\n" + body


def decl_text(b, d):
    if d[0] == 'iface':
        return b.cls(d[1], [x[1] for x in d[3]], d[4])
    if d[0] == 'enum':
        base = 'IntEnum' if all(isinstance(v, int) for _, v in d[2]) else 'Enum'
        return f'class {d[1]}({base}):\n' + ''.join(f'    {n} = {v!r}\n' for n, v in d[2])
    if d[0] == 'alias':
        return f'{d[1]} = {b.text(d[3])}\n'
    raise ValueError(d)


def module_text(doc, style, flavour):
    b = Builder(style, flavour)
    out = []
    for d in doc:
        b.classes = []
        t = decl_text(b, d)
        out.extend(b.classes)
        out.append(t)
    return COMMON + HEADER[flavour] + '\n'.join(out)


def cfg_of(flavour):
    return dict(UseLiteralType=True, UseNotRequired=flavour == 'typing')
