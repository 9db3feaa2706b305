"""An independent recogniser for the supported TypeScript subset.

A context-free over-approximation of the documented grammar on the level of
tokens, written down by hand: whatever it rejects, is not derivable.  Every
recogniser maps a position to the set of positions where a derivation can end.
"""
import re
import sys

import tokens

GRAMMAR = r'''
document    = { interface | type_alias | namespace | enum | const | module | assignment | ellipsis
              | [ 'export' ] declaration ';' | [ 'export' ] function ';' | import ';' }
module      = 'declare' 'module' quotedid '{' document '}'
import      = 'import' [ ( symlist | symbol ) 'from' ] STRING
symlist     = '{' symbol { ',' symbol } '}'
symbol      = ID | '*' [ 'as' ID ]
interface   = [ 'export' ] [ 'declare' ] ( 'interface' | 'class' ) ID [ tparams ] [ extends ] block [ ';' ]
extends     = ( 'extends' | 'implements' ) tname [ tparams ] { ',' tname [ tparams ] }
block       = '{' [ ( function | declaration ) { [ ';' | ',' ] ( function | declaration ) } [ ';' mapsig ] [ ';' | ',' ] ] '}'
declaration = quals [ 'let' | 'var' ] ID [ '?' ] [ ':' types ]
quals       = [ 'readonly' [ 'static' ] | 'static' [ 'readonly' ] ]
function    = [ [ 'export' ] [ 'static' ] [ 'function' ] ID [ '?' ] [ tparams ] ] '(' [ args ] ')' [ ':' types ]
            | '[' NAME ']' '(' [ args ] ')' [ ':' types ]
args        = ( arg { ',' arg } [ ',' tail ] | tail ) [ ',' ]
tail        = '...' ID [ ':' ( arrayof | tname tparams ) ]
arg         = ID [ '?' ] [ ':' types ]
type_alias  = [ 'export' ] 'type' ID [ tparams ] '=' types ';'
types       = [ '|' ] inter { '|' inter }
inter       = type { '&' type }
type        = [ 'readonly' ] ( arrayof | tname [ tparams ] | indexed | '(' types ')' | mapped | block | tuple | dtuple
              | literal | functype )
tparams     = '<' ptypes { ',' ptypes } '>'
ptypes      = [ '|' ] ptype { '|' ptype }
ptype       = [ 'readonly' ] ( arrayof | tname tparams | indexed | tname [ exttype ] [ '=' tname ] | block | tuple | dtuple )
exttype     = 'extends' [ 'keyof' ] ( tname | mapped )
arrayof     = arraytype '[' ']'
arraytype   = tname [ tparams ] | '(' types ')' | tuple | block
tname       = NAME
tuple       = '[' types { ',' types } ']'
dtuple      = '[' declaration { ',' declaration } ']'
mapped      = '{' mapsig [ ';' ] '}'
mapsig      = indexsig ':' types
indexsig    = [ 'readonly' ] '[' ID ( ':' | [ 'in' ] 'keyof' | 'in' ) type ']' [ '?' ]
indexed     = tname '[' ( tname | literal ) ']'
functype    = [ 'new' ] '(' [ args ] ')' '=>' types
namespace   = [ 'export' ] 'namespace' ID '{' { interface | type_alias | enum | const | [ 'export' ] declaration ';'
              | [ 'export' ] function ';' } '}'
enum        = [ 'export' ] 'enum' ID '{' item { ',' item } [ ',' ] '}'
item        = quotedid [ '=' literal ]
const       = [ 'export' ] 'const' declaration [ '=' ( literal | ID ) ] ';'
assignment  = NAME '=' ( literal | NAME ) ';'
ellipsis    = literal { ',' literal }
literal     = NUMBER | 'true' | 'false' | STRING | '[' [ literal { ',' literal } ] ']'
            | '{' [ assoc { ',' assoc } ] [ ',' ] '}'
assoc       = ( ID | quotedid ) ':' literal
quotedid    = ID | QUOTEDID | '"' ID '"' | SQUOTE ID SQUOTE
'''


def parse_grammar(text):
    """-> {name: expression}; expression: ('seq', ..) ('alt', ..) ('opt', e) ('rep', e) ('tok', t) ('sym', s)"""
    toks = re.findall(r"'[^']*'|[\w]+|[][{}()|=]", text)
    rules, pos = {}, 0

    def alt(i):
        parts = []
        e, i = seq(i)
        parts.append(e)
        while i < len(toks) and toks[i] == '|':
            e, i = seq(i + 1)
            parts.append(e)
        return (('alt',) + tuple(parts) if len(parts) > 1 else parts[0]), i

    def seq(i):
        parts = []
        while i < len(toks) and toks[i] not in ('|', ')', ']', '}'):
            t = toks[i]
            if i + 1 < len(toks) and toks[i + 1] == '=' and re.match(r'\w', t):
                break
            if t in '([{':
                e, i = alt(i + 1)
                assert toks[i] == {'(': ')', '[': ']', '{': '}'}[t], (t, i)
                e = e if t == '(' else ('opt', e) if t == '[' else ('rep', e)
                i += 1
            elif t[0] == "'":
                e = ('tok', t[1:-1])
                i += 1
            else:
                e = ('sym', t)
                i += 1
            parts.append(e)
        return ('seq',) + tuple(parts), i

    while pos < len(toks):
        name = toks[pos]
        assert toks[pos + 1] == '='
        rules[name], pos = alt(pos + 2)
    return rules


RULES = parse_grammar(GRAMMAR)
RX_ID = re.compile(r'[^\W\d]\w*$')
RX_QID = re.compile(r'''(["'])\s*[^\W\d]\w*\s*\1$''')


def terminal(name, tok):
    kind, t = tok
    if name == 'ID':
        return kind == 'name' and bool(RX_ID.match(t)) and t not in ('true', 'false')
    if name == 'NAME':
        return kind == 'name' and t not in ('true', 'false')
    if name == 'STRING':
        return kind == 'string'
    if name == 'NUMBER':
        return kind == 'number'
    if name == 'QUOTEDID':
        return kind == 'string' and bool(RX_QID.match(t))
    if name == 'SQUOTE':
        return t == "'"
    return None


def derivable(text):
    """May the text be derived from the grammar?"""
    toks = tokens.tokenize(text[1:] if text[:1] == '\ufeff' else text)     # byte-order mark
    n = len(toks)
    memo = {}

    def run(e, i):
        k = e[0]
        if k == 'tok':
            return (i + 1,) if i < n and toks[i][1] == e[1] and toks[i][0] != 'string' else ()
        if k == 'sym':
            s = e[1]
            if s in RULES:
                key = (s, i)
                r = memo.get(key)
                if r is None:
                    memo[key] = ()
                    r = memo[key] = tuple(run(RULES[s], i))
                return r
            return (i + 1,) if i < n and terminal(s, toks[i]) else ()
        if k == 'seq':
            cur = {i}
            for x in e[1:]:
                nxt = set()
                for j in cur:
                    nxt.update(run(x, j))
                if not nxt:
                    return ()
                cur = nxt
            return cur
        if k == 'alt':
            res = set()
            for x in e[1:]:
                res.update(run(x, i))
            return res
        if k == 'opt':
            return {i} | set(run(e[1], i))
        if k == 'rep':
            res, todo = {i}, [i]
            while todo:
                for j in run(e[1], todo.pop()):
                    if j not in res:
                        res.add(j)
                        todo.append(j)
            return res
        raise ValueError(e)

    old = sys.getrecursionlimit()
    sys.setrecursionlimit(max(old, 20000))
    try:
        return n in run(('sym', 'document'), 0)
    finally:
        sys.setrecursionlimit(old)
