"""A small tokenizer for the TypeScript subset (independent of the parser)."""
import re

RX = re.compile(r'''
    (?P<ws>\s+)
  | (?P<comment>//[^\n]*|/\*.*?\*/)
  | (?P<string>"[^"\n]*"|'[^'\n]*')
  | (?P<number>-?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)
  | (?P<name>[^\W\d]\w*(?:\.[^\W\d]\w*)*)
  | (?P<punct>\.\.\.|=>|.)
''', re.VERBOSE | re.DOTALL)


def tokenize(text):
    """[(kind, text)] without white space and comments."""
    res = []
    for m in RX.finditer(text):
        if m.lastgroup not in ('ws', 'comment'):
            res.append((m.lastgroup, m.group(0)))
    return res


def glue(a, b):
    """Do two adjacent tokens need white space between them?"""
    wordy = ('name', 'number')
    return a[0] in wordy and b[0] in wordy or a[1] == '-' or \
        a[0] in wordy and b[1] == '...' or a[0] == 'string' and False


def join(toks, fill):
    """Joins tokens; fill(i) yields the filler before token i (i = len: end)."""
    out = []
    for i, t in enumerate(toks):
        f = fill(i)
        if not f and i > 0 and glue(toks[i - 1], t):
            f = ' '
        out.append(f + t[1])
    out.append(fill(len(toks)))
    return ''.join(out)


def declaration_starts(toks):
    """Indices of tokens that start a toplevel declaration, and of those that
    start a member of a named interface."""
    decls, members = [], []
    stack = []
    start = True
    kind = ''
    i = 0
    for i, (k, t) in enumerate(toks):
        if not stack and start:
            decls.append(i)
            start = False
            kind = ''
        if not stack and t in ('interface', 'class', 'type', 'enum', 'namespace', 'const', 'function') and not kind:
            kind = t
        if t == '{' and kind in ('interface', 'class') and not stack:
            if toks[i + 1][1] != '}':
                members.append(i + 1)
        if t in '([{<' and len(t) == 1:
            stack.append(t)
        elif t in ')]}' or t == '>' and stack and stack[-1] == '<':
            if stack:
                stack.pop()
            if not stack and t == '}' and kind in ('interface', 'class', 'enum', 'namespace'):
                if not (i + 1 < len(toks) and toks[i + 1][1] == ';'):
                    start = True
        elif t in (';', ',') and stack == ['{'] and kind in ('interface', 'class'):
            if i + 1 < len(toks) and toks[i + 1][1] != '}':
                members.append(i + 1)
        if t == ';' and not stack:
            start = True
    return decls, members
