"""INCAR text: every tag gets the value and type its text denotes; comments, blanks and ; are handled; errors are refused."""
from . import inc
from .tags import TAGS

BOUNDS = ('1-2 lines (quick) / 1-3 (thorough) with up to 2 entries each over 12 kinds of values, 12 entries on 12, 4 or 1 lines, lists of 12 values, each of the 604 tags and 4 changes of it, all letter cases of the '
          'tags, single tokens of up to 4 (quick) / 5 characters over digits, sign, point, exponent letters and a letter, '
          'LF/CRLF/no final newline, string, handler and path sources; digits and letters symbolic')

LAYOUT = ['plain', 'string', 'path crlf', 'string no final newline', 'tight', 'tabs', 'trailing semicolon',
          'string trailing semicolon', 'trailing semicolon blank', 'comment', 'comment with entry', 'comment line before',
          'blank lines', 'second entry', 'second entry comment', 'leading semicolon']


def build(h, text, src, **kw):
    I = h.mod('incar').Incar
    if src == 'string':
        return h.run(lambda: I(incar_string=text, logger=h.logger, **kw))
    if src == 'path':
        p = h.path(text)
        return h.run(lambda: I(file_path=p, logger=h.logger, **kw))
    return h.run(lambda: I(file_handler=h.file(text), logger=h.logger, **kw))


def layout(h):
    kind = h.choice('kind', inc.KINDS)
    lay = h.choice('layout', LAYOUT)
    tag = inc.TAG[kind]
    txt, val = inc.value(h, kind, 0, {'tabs': 2, 'tight': 2, 'comment': 3}.get(lay, 1))
    name = h.anycase('t', tag)
    eq = '=' if lay == 'tight' else '\t=\t' if lay == 'tabs' else ' = '
    line = h.join('', [name, eq, txt])
    exp = {tag: val}
    com = {tag: None}
    pre, post = [], ['ISYM = 0']
    exp['isym'] = 0
    if 'trailing semicolon' in lay:
        line = h.join('', [line, ' ;' + (' ' if 'blank' in lay else '')])
    elif lay == 'leading semicolon':
        line = h.join('', ['; ', line])
    elif lay == 'comment':
        line = h.join('', [line, ' # some text '])
        com[tag] = 'some text'
    elif lay == 'comment with entry':
        line = h.join('', [line, '   # ENCUT = 500 ; NSW = 3 # x'])
        com[tag] = 'ENCUT = 500 ; NSW = 3 # x'
    elif lay == 'comment line before':
        pre = ['# NELM = 5', '   # second', '#']
    elif lay == 'blank lines':
        pre = ['', '   ', '\t']
        post = [''] + post + ['', ' ']
    elif 'second entry' in lay:
        t2 = h.inum('second', 0, 99)
        line = h.join('', [line, ' ; nelm=', t2.text])
        exp['nelm'] = t2.val
        com['nelm'] = None
        if 'comment' in lay:
            line = h.join('', [line, '#both'])
            com[tag] = com['nelm'] = 'both'
    eol = '\r\n' if 'crlf' in lay else '\n'
    L = pre + [line] + post
    text = h.join(eol, L) if 'no final' in lay else h.lines(L, eol)
    src = 'string' if 'string' in lay else 'path' if 'path' in lay else 'handler'
    r = build(h, text, src)
    h.check(r.ok, 'well-formed INCAR is parsed')
    got = r.value.get_dict()
    h.check(set(got) == set(exp), 'exactly the tags of the text')
    for t in exp:
        h.eq(got[t], exp[t], f'value of a {kind}' if t == tag else f'value of {t}', 'exact')
        h.check(h.kind(got[t]) == h.kind(exp[t]), f'type of a {kind}')
    for t in com:
        h.eq(r.value.get(t, comment=True)[1], com[t], 'comment goes with its entry')


def numtok(h, s, n):
    """Own classification of a token of n characters."""
    dig, sign, exp = '0123456789', '+-', 'eE'
    i = 0
    if h.isin(s[0], sign):
        i = 1
    nd = pt = 0
    while i < n and (h.isin(s[i], dig) or (not pt and s_is(h, s[i], '.'))):
        if s_is(h, s[i], '.'):
            pt = 1
        else:
            nd += 1
        i += 1
    if not nd:
        return 'str'
    if i == n:
        return 'float' if pt else 'int'
    if not h.isin(s[i], exp):
        return 'str'
    i += 1
    if i < n and h.isin(s[i], sign):
        i += 1
    if i == n:
        return 'str'
    while i < n and h.isin(s[i], dig):
        i += 1
    return 'float' if i == n else 'str'


def s_is(h, c, x):
    return h.isin(c, x)


def token(hi):
    def har(h):
        n = h.size('n', 1, hi)
        s = h.chars('c', n, '07.eE+-a')
        r = build(h, h.join('', ['EDIFF = ', s, '\n']), h.choice('src', ['string', 'handler']))
        h.check(r.ok, 'any single token is accepted')
        v = r.value.get('ediff')
        k = numtok(h, s, n)
        h.check(h.kind(v) == k, 'a token is an integer, a float or a word by its spelling')
        if k == 'str':
            h.eq(v, s, 'a word is kept as it is')
    return har


def history(hi):
    """Several lines, possibly naming a tag again: the last one counts."""
    def har(h):
        n = h.size('lines', 2, hi)
        src = h.choice('src', ['string', 'handler'])
        L, exp, tags, com = [], {}, [], {}
        marked = h.choice('marked', [None, 'first', 'last'])
        for i in range(n):
            tag = h.choice(f'tag{i}', ['encut', 'ispin'])
            kind = h.choice(f'kind{i}', ['int', 'word', 'floats', 'true'])
            txt, val = inc.value(h, kind, i)
            sep = h.choice(f'sep{i}', ['line', 'semicolon']) if i else 'line'
            e = h.join('', [h.anycase(f't{i}', tag), '=', txt])
            if sep == 'line':
                L.append([e])
                tags.append([tag])
            else:
                L[-1].append(e)
                tags[-1].append(tag)
            exp[tag] = val
        L = [h.join(';', x) for x in L]
        if marked:
            i = 0 if marked == 'first' else len(L) - 1
            L[i] = h.join('', [L[i], ' # remark'])
        for j, x in enumerate(tags):
            for t in x:
                com[t] = 'remark' if marked and j == i else None
        r = build(h, h.lines(L), src)
        h.check(r.ok, 'well-formed INCAR is parsed')
        h.eq(r.value.get_dict(), exp, 'the last entry for a tag counts')
        for t in com:
            h.eq(r.value.get(t, comment=True)[1], com[t], 'and so does its comment')
    return har


def tags(h):
    """Every tag of the VASP documentation is known, in any letter case; the same with one letter changed only if that is a tag too."""
    tag = h.choice('tag', TAGS)
    change = h.choice('change', [None, 'first', 'last', 'longer', 'shorter'])
    t = h.inum('v', -99, 999)
    if change is None:
        name = h.anycase('t', tag)
        word = tag
    else:
        word = {'first': 'z' + tag[1:], 'last': tag[:-1] + 'q', 'longer': tag + 'x', 'shorter': tag[:-1]}[change]
        name = word.upper()
    r = build(h, h.join('', [name, ' = ', t.text, '\n']), 'string')
    if word in TAGS:
        h.check(r.ok, 'a tag of VASP is accepted')
        g = r.value.get_dict()
        h.eq(list(g), [word], 'the tag')
        h.eq(g[word], t.text if word in ('system', 'magmom', 'm_constr') else t.val, 'its value', 'exact')
    else:
        h.check(r.kind == 'exit' and r.code == 100, 'an unknown tag is refused')


MANY = ['encut', 'sigma', 'nsw', 'lwave', 'algo', 'ropt', 'dipol', 'prec', 'lreal', 'ediff', 'nelm', 'isym']


def many(h):
    """More than nine entries, more than nine values of one entry."""
    per = h.choice('per line', [1, 3, 12])
    src = h.choice('src', ['string', 'handler', 'path'])
    rev = h.choice('reversed', [False, True])
    ent, exp = [], {}
    for i, tag in enumerate(MANY):
        if tag in ('ropt', 'dipol'):
            t = [h.num(f'l{i}_{j}', 2, -9, 9) if tag == 'ropt' else h.inum(f'l{i}_{j}', -9, 99) for j in range(12)]
            txt, val = h.row(*t), [x.val for x in t]
        else:
            txt, val = inc.value(h, ['int', 'float', 'word', 'true'][i % 4], i)
        ent.append(h.join('', [tag.upper(), ' = ', txt]))
        exp[tag] = val
    if rev:
        ent.reverse()
    r = build(h, h.lines([h.join(' ; ', ent[i:i + per]) for i in range(0, len(ent), per)]), src)
    h.check(r.ok, 'well-formed INCAR is parsed')
    got = r.value.get_dict()
    h.check(set(got) == set(exp), 'exactly the tags of the text')
    for t in exp:
        h.eq(got[t], exp[t], f'value of {t}', 'exact')


def digits(h):
    """Numbers of many digits keep every one of them."""
    t = h.choice('number', ['9007199254740993', '-12345678901234567891', '+36028797018963969', '123456789.123456789', '0.1000000000000000055',
                            '1234567890123456.7', '000000000000000000012', '-0', '1E15', '123456789012345678E-3'])
    n = h.inum('n', -99, 99)
    v = int(t) if t.lstrip('+-').isdigit() else float(t)
    r = build(h, h.join('', ['NELM = ', n.text, '\nEDIFF = ', t, '\n']), h.choice('src', ['string', 'handler', 'path']))
    h.check(r.ok, 'well-formed INCAR is parsed')
    g = r.value.get_dict()
    h.eq(g, {'nelm': n.val, 'ediff': v}, 'value', 'exact')
    h.check(type(g['ediff']) is type(v), 'type')


def refused(h):
    case = h.choice('case', ['two equals', 'no equals', 'mixed int float', 'mixed int word', 'mixed float bool', 'unknown',
                             'unknown allowed', 'unknown allowed dot', 'unknown prefix'])
    src = h.choice('src', ['string', 'handler', 'path'])
    pos = h.choice('pos', ['first', 'last'])
    w = h.chars('w', 2, inc.LETTERS)
    kw = {}
    if case == 'two equals':
        bad, code = h.join('', ['PREC = A = ', w]), 101
    elif case == 'no equals':
        bad, code = h.join('', ['PREC ', w]), 102
    elif case == 'mixed int float':
        bad, code = h.join('', ['DIPOL = ', h.inum('i', 0, 9).text, ' ', h.num('f', 2, 0, 9).text]), 104
    elif case == 'mixed int word':
        bad, code = h.join('', ['NSW = ', h.inum('i', 0, 9).text, ' ', w]), 104
    elif case == 'mixed float bool':
        bad, code = h.join('', ['SIGMA = ', h.num('f', 2, 0, 9).text, ' .TRUE.']), 104
    elif case == 'unknown prefix':
        bad, code = h.join('', [h.anycase('t', 'encutx'), ' = 3']), 100
    else:
        name = 'nota.tag_2-x' if 'dot' in case else 'notatag'
        bad, code = h.join('', [h.anycase('t', name), ' = ', w]), 100
    if 'allowed' in case:
        kw['validate_tags'] = False
    L = [bad, 'ISYM = 0'] if pos == 'first' else ['ISYM = 0', bad]
    r = build(h, h.lines(L), src, **kw)
    if 'allowed' in case:
        h.check(r.ok, 'unknown tags pass when validation is off')
        h.eq(r.value.get_dict(), {name: w, 'isym': 0}, 'unknown tag kept')
    else:
        h.check(r.kind == 'exit' and r.code == code, f'{case}: refused with its exit code')


def dictionary(h):
    """A dictionary that can not be an INCAR is refused as a text is."""
    I = h.mod('incar').Incar
    case = h.choice('case', ['two comments', 'mixed', 'none', 'tuple', 'dict', 'bytes', 'unknown', 'unknown allowed', 'mixed in comment'])
    v = h.num('f', 2, 0, 9).text
    n = h.int('n', -9, 9)
    kw = {}
    name, code, ok = 'NSW', None, None
    if case == 'two comments':
        bad, code = h.join('', [v, ' # a # b']), 103
    elif case == 'mixed':
        bad, code = h.join('', [v, ' ', h.chars('w', 2, inc.LETTERS)]), 104
    elif case == 'none':
        bad, code = None, 105
    elif case == 'tuple':
        bad, code = (n, n), 105
    elif case == 'dict':
        bad, code = {'a': n}, 105
    elif case == 'bytes':
        bad, code = b'3', 105
    elif case == 'mixed in comment':
        t = h.num('g', 2, 0, 9)
        bad, ok = h.join('', [t.text, '#w 3']), {'nsw': t.val, 'isym': 0}
    else:
        name, bad, code = h.anycase('t', 'notatag'), n, 100
        if 'allowed' in case:
            kw['validate_tags'] = False
            ok = {'notatag': n, 'isym': 0}
    d = {name: bad, 'ISYM': 0} if h.choice('pos', ['first', 'last']) == 'first' else {'ISYM': 0, name: bad}
    r = h.run(lambda: I(incar_dict=d, logger=h.logger, **kw))
    if ok is not None:
        h.check(r.ok, 'valid dictionary accepted')
        h.eq(r.value.get_dict(), ok, 'dictionary')
    else:
        h.check(r.kind == 'exit' and r.code == code, f'{case}: refused with its exit code')


def harnesses(tier):
    q = tier == 'quick'
    return [('layout', layout), ('token', token(4 if q else 5)), ('history', history(2 if q else 3)), ('refused', refused),
            ('dictionary', dictionary), ('many', many), ('tags', tags), ('digits', digits)]
