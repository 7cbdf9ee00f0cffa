"""KPOINTS: what the file says is what is parsed, in every mode, whatever the source and the blank lines."""
from symex.harness import Tok

from . import kp

BOUNDS = ('1-3, 11 or 12 points or segments, 0-2 or 20 tetrahedra, 0-2 trailing blank lines, keyword first letters in either case, string, '
          'handler, path and CRLF sources, several spellings of numbers, separators and comments, all coordinates, weights, divisions, shifts and vectors symbolic')

VAR = ['handler', 'string', 'path', 'path crlf', 'handler trailing blank', 'string trailing blank',
       'path two trailing blanks', 'string no final newline', 'handler hash comment', 'string spaces']


def build(h, L, var):
    K = h.mod('kpoints').Kpoints
    src = var.split()[0]
    c = '# a comment ' if 'hash' in var else 'a comment'
    lines = [c] + L
    if 'spaces' in var:
        lines = [h.join('', ['  ', x, '  ']) for x in lines] + ['   ']
    r = kp.make(h, K, lines, src, '\r\n' if 'crlf' in var else '\n', 2 if 'two' in var else 1 if 'trailing' in var else 0,
                'no final' not in var)
    h.check(r.ok, 'well-formed KPOINTS is parsed')
    return r.value


def judge(h, k, d, what):
    got = k.get_dict()
    h.eq(got['comment'], 'a comment', 'comment')
    for key in ('mode', 'num_kpoints', 'centering'):
        h.eq(got[key], d[key], key, 'exact')
    for key in ('points', 'tetra', 'tetra_volume', 'divisions', 'shifts', 'generating_vectors'):
        h.eq(got[key], d[key], f'{what}: {key}', 'exact')
    for key in ('divisions', 'shifts', 'mode', 'centering', 'tetra'):
        h.eq(k.get(key), d[key], f'get {key}', 'exact')


def explicit(hi, ti, many=None):
    def har(h):
        npt = h.choice('npt', many) if many else h.size('npt', 1, hi)
        ntet = h.choice('ntet', [None, 20] if many else [None] + list(range(1, ti + 1)))
        weights = h.choice('weights', [True, False])
        var = h.choice('variant', VAR[:3] if many else VAR)
        head = 'Direct' if many else h.choice('head', ['Direct', 'any'])
        if head == 'any':
            head = h.join('', [h.char('hc', 'RrDdXgM'), 'eciprocal lattice'])
        lab = h.choice('label', ['', ' ! X', ' G 1 2']) if weights and head == 'Direct' and not many else ''
        L, d = kp.explicit(h, npt, ntet, weights, head, label=lab)
        judge(h, build(h, L, var), d, 'explicit')
    return har


def automatic(h):
    name = h.choice('centering', ['Gamma', 'Monkhorst-Pack'])
    shift = h.choice('shift', [True, False])
    var = h.choice('variant', VAR)
    zero = h.choice('zero', ['0', '-1'])
    L, d = kp.automatic(h, kp.words(h, 'c', name, 'xyz'), shift, zero=zero)
    d['centering'] = name
    judge(h, build(h, L, var), d, 'automatic')


def grg(h):
    var = h.choice('variant', VAR)
    L, d = kp.grg(h, kp.words(h, 'c', 'R', 'eciprocal'))
    judge(h, build(h, L, var), d, 'generating vectors')


def line(hi, many=None):
    def har(h):
        n = h.choice('nseg', many) if many else h.size('nseg', 1, hi)
        var = h.choice('variant', VAR[:3] if many else VAR)
        blank = h.choice('blank', ['', None, '  '])
        lab = h.choice('label', ['', '  ! X'])
        ref = 'Rec' if many else h.join('', [h.char('rc', 'RrDd'), 'ec'])
        L, d = kp.line(h, n, ref, kp.words(h, 'c', 'L', 'ine'), blank, lab, most=99999 if many else 99)
        judge(h, build(h, L, var), d, 'line')
    return har


def spelled(h):
    """Numbers in any spelling, separated by any blanks; comments of any length."""
    sep = h.choice('sep', [' ', '\t', '    '])
    spell = h.choice('spelling', ['0 .5 5. -0', '+.25 1e-1 1.E+00 -2.5E-03', '00.5 1E2 -1.0 12', '0.0000000000000001 0.12345678901234567 -9 1e-12'])
    x = [Tok(t, float(t)) for t in spell.split()]
    letter = h.choice('letter', 'Ee')
    y = [h.enum(f'y{j}', 4, -1, letter=letter) for j in range(3)]
    mode = h.choice('mode', ['explicit', 'line', 'grg', 'gamma'])

    def row(*t):
        return h.join(sep, ['', *[z.text for z in t], ''])
    if mode == 'explicit':
        L, d = kp.explicit(h, 2, None, True)
        L[2], L[3] = row(*x), row(*y, x[3])
        d['points'] = [[[z.val for z in x[:3]], x[3].val, True], [[z.val for z in y], x[3].val, True]]
    elif mode == 'line':
        L, d = kp.line(h, 1)
        L[3], L[4] = row(*x[:3]), row(*y)
        d['points'] = [[[z.val for z in q], 1.0, True] for q in (x[:3], y)]
    elif mode == 'grg':
        L, d = kp.grg(h)
        L[2], L[3], L[5] = row(*x[:3]), row(*y), row(*x[1:])
        d['generating_vectors'][:2] = [[z.val for z in q] for q in (x[:3], y)]
        d['shifts'] = [z.val for z in x[1:]]
    else:
        L, d = kp.automatic(h, 'Gamma', True)
        d['centering'] = 'Gamma'
        div = [h.inum(f'n{j}', 1, 999) for j in range(3)]
        L[2], L[3] = row(*div), row(*x[:3])
        d['divisions'], d['shifts'] = [z.val for z in div], [z.val for z in x[:3]]
    com = h.choice('comment', ['# k # points  of a # mesh', 'word ' * 40, '0 1 2', 'Å'])
    K = h.mod('kpoints').Kpoints
    r = kp.make(h, K, [com] + L, h.choice('src', ['handler', 'string', 'path']))
    h.check(r.ok, 'well-formed KPOINTS is parsed')
    got = r.value.get_dict()
    h.eq(got['comment'].replace('#', '').split(), com.replace('#', '').split(), 'words of the comment')
    for key in ('mode', 'num_kpoints', 'centering', 'points', 'tetra', 'tetra_volume', 'divisions', 'shifts', 'generating_vectors'):
        h.eq(got[key], d[key], f'spelling: {key}', 'exact')


def keywords(h):
    """Only the first letter of a keyword counts, in either case: whatever follows it, if anything, changes nothing."""
    rest = h.choice('rest', ['', ' ', '-', 'x', '1', ' word', 'onger word here', 'letter'])
    if rest == 'letter':
        rest = h.char('rl', 'aeimnoqrstuvyz')
    lead = h.choice('lead', ['', '  '])

    def word(name, first):
        return h.join('', [lead, h.anycase(name, first), rest])
    mode = h.choice('mode', ['line', 'line direct', 'explicit', 'explicit reciprocal', 'tetra', 'gamma', 'mp', 'grg', 'count'])
    if mode.startswith('line'):
        L, d = kp.line(h, 1, word('r', 'd' if 'direct' in mode else 'r'), word('c', 'l'))
    elif mode.startswith('explicit'):
        L, d = kp.explicit(h, 1, None, True, word('c', 'r' if 'recip' in mode else 'd'))
    elif mode == 'tetra':
        L, d = kp.explicit(h, 1, 1, True)
        L[L.index('Tetrahedra')] = word('c', 't')
    elif mode == 'count':
        L, d = kp.explicit(h, 1, None, True)
        L[0] = h.join('', [lead, '1', ' ', rest])
    elif mode == 'grg':
        L, d = kp.grg(h, word('c', 'r'))
    else:
        L, d = kp.automatic(h, word('c', mode[0]), True)
        d['centering'] = {'gamma': 'Gamma', 'mp': 'Monkhorst-Pack'}[mode]
    judge(h, build(h, L, 'string'), d, f'keyword of {mode}')


def refused(h):
    """Documents the parser documents as unsupported end in their exit code, never in data."""
    case = h.choice('case', ['cartesian', 'line cartesian', 'auto', 'expert', 'tetra five'])
    src = h.choice('src', ['handler', 'string'])
    K = h.mod('kpoints').Kpoints
    if case == 'cartesian':
        L, code = kp.explicit(h, 1, None, True, h.join('', [h.char('c', 'CcKk'), 'artesian']))[0], 200
    elif case == 'line cartesian':
        L, code = kp.line(h, 1, h.join('', [h.char('c', 'CcKk'), 'artesian']))[0], 200
    elif case == 'auto':
        L, code = ['0', h.join('', [h.char('c', 'Aa'), 'uto']), h.row(h.inum('l', 1, 99))], 202
    elif case == 'expert':
        L, code = kp.grg(h, h.join('', [h.char('c', 'CcDd'), 'artesian']))[0], 203
    else:
        L, code = kp.explicit(h, 1, 1, True)[0], 201
        n = h.choice('n', [3, 4, 6])
        L[-1] = h.row(*[h.inum(f'z{i}', 1, 9) for i in range(n)])
    r = kp.make(h, K, ['c'] + L, src)
    h.check(r.kind == 'exit' and r.code == code, f'{case}: documented exit code')


def harnesses(tier):
    q = tier == 'quick'
    return [('explicit', explicit(2 if q else 4, 2 if q else 3)), ('automatic', automatic), ('generating vectors', grg),
            ('line', line(2 if q else 4)), ('many', explicit(0, 0, [10, 11, 12])), ('many lines', line(0, [5, 11])),
            ('keywords', keywords), ('spelled', spelled), ('refused', refused)]
