"""C08: preserving comments never corrupts the generated code."""
import io
import re
import tokenize as pytok

import common
import docs
import tokens
import tsmodel as tm
from checks import c25
from checks.c07 import CONFIGS, source, specs, first_diff

MARK = 'Zqx marker'
DOC = (f'/** {MARK} */\n', f'/**\n * {MARK} "quoted" it\'s\n *\n * @param {{x}} y: (z)\n */\n',
       f'/* {MARK}: class X: pass\n   second; line \x7d */\n', f'/**\n\n {MARK}\n\tindented\n*/\n',
       f'/** {MARK}\n * **bold** 1. #2 - x_y\n * http://host/a//b */\n', f'/*\n\t{MARK}\n\t\t* item\n\t\t* item\n*/\n',
       f'/** {MARK} */ /** and another """ one */\n',
       # lines of punctuation only, lines that look like code, are long, are many
       f'/**\n * {MARK}\n * -----\n * ===\n * ___\n * {{\n *   "a": 1,\n * }}\n * + - ~\n * `x`\n * ...\n * # x\n * äöü\n */\n',
       f'/**\n * {MARK}' + ' word' * 70 + ' last\n' + ''.join(f' * line {i}: x\n' for i in range(40)) + ' */\n')
OTHER = (f'// {MARK}\n', f' /* {MARK} */ ', f'/** {MARK} */', f'// {MARK}\n/** and {{@link B}} */\n',
         f'\n\n/**\n * {MARK}\n */\n\n// tail\n')
FILLERS = DOC + OTHER


def words(text):
    return ''.join(f' {w} ' for w in re.findall(r'\w+', text))


def pytokens(code):
    """Python tokens without comments and blank lines."""
    res, comments = [], []
    for t in pytok.generate_tokens(io.StringIO(code + '\n').readline):
        if t.type == pytok.COMMENT:
            comments.append(t.string)
        elif t.type == pytok.NL:
            continue
        elif t.type in (pytok.INDENT, pytok.DEDENT, pytok.NEWLINE):
            res.append((t.type, ''))
        else:
            res.append((t.type, t.string))
    return res, comments


def run_case(case):
    spec, ci, vs = case
    cfg = dict(CONFIGS[ci])
    toks = tokens.tokenize(source(spec))
    decls, members = tokens.declaration_starts(toks)
    # comments directly preceding the next declaration
    must = set(decls) | set(members)

    def text_of(chosen, fl):
        return tokens.join(toks, lambda i: ('\n' if i in must else ' ') * (0 < i < len(toks)) +
                           (fl if i in chosen else ''))
    plain = text_of((), '')
    code, errs = common.transpile(plain, cfg)
    if common.has_error(errs):
        return dict(fail=[f'reference document rejected: {errs[:2]}'], shown=plain)
    cfg['KeepMultilineComments'] = True
    ref = pytokens(common.body(code))[0]
    n, outs = 1, set()
    for pos, f in vs:
        chosen = range(len(toks) + 1) if pos == 'all' else sorted(must) if pos == 'must' else (pos,)
        text = text_of(chosen, FILLERS[f])
        n += 1
        fails = []
        code = ''
        try:
            code, errs = common.transpile(text, cfg)
            if common.has_error(errs):
                fails.append(f'rejected: {[e[2] for e in errs if e[0] >= 1000][:2]}')
            else:
                got, comments = pytokens(common.body(code))
                if got != ref:
                    i = next((i for i, (a, b) in enumerate(zip(got, ref)) if a != b), min(len(got), len(ref)))
                    fails.append('generated code differs at token '
                                 f'{got[max(0, i - 3):i + 3]} instead of {ref[max(0, i - 3):i + 3]}')
                count = words(' '.join(comments)).count(words(FILLERS[f]))
                want = len(must) if pos in ('all', 'must') else int(pos in must)
                if f < len(DOC) and not cfg_drops(cfg) and count < want:
                    fails.append(f'{want - count} documentation comments are missing')
                outs.add(f'{pos in must}{count}{f}')
        except Exception as e:
            fails.append(common.describe_exc(e))
        if fails:
            where = pos if isinstance(pos, str) else \
                f'before token {pos} {toks[pos][1] if pos < len(toks) else "EOF"!r}'
            return dict(fail=[f'comment {FILLERS[f]!r} {where}: ' + '; '.join(fails)], n=n,
                        shown=text + '\n----\n' + common.body(code or ''))
    return dict(fail=[], n=n, outcomes=[repr(spec) + o for o in outs])


def cfg_drops(cfg):
    return False


def main():
    run = common.Run('C08')
    common.prepare()
    cases, n = [], 0
    for i, s in enumerate(specs()):
        toks = tokens.tokenize(source(s))
        decls, members = tokens.declaration_starts(toks)
        must = set(decls) | set(members)
        for ci in range(len(CONFIGS)) if common.THOROUGH else [(i + common.SEED) % len(CONFIGS)]:
            vs = [(p, f) for p in range(len(toks) + 1) for f in range(len(FILLERS))
                  if common.THOROUGH or p in must and f < len(DOC) or (p + f + i) % 3 == 0]
            vs += [(p, f) for p in ('all', 'must') for f in range(len(FILLERS))]
            n += len(vs)
            for k in range(0, len(vs), 60):
                cases.append((s, ci, tuple(vs[k:k + 60])))
    run.states, run.transitions = n, n
    common.execute(run, cases, run_case, chunk=1)
    for c in (cases[0], cases[len(cases) // 2], cases[-1]):
        run.sample(dict(document=source(c[0])[:400], comment=FILLERS[c[2][0][1]], position=c[2][0][0]))
    run.rule = (f'states: (document, token boundary, comment) for {len(FILLERS)} comments; every boundary, with '
                'documentation comments at all declarations and members, and comments everywhere at once; '
                'oracle: Python tokens other than comments are those of the transpilation without comments')
    return run
