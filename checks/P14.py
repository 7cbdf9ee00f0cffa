"""POTCAR: every header field is reported with the value it prints."""
BOUNDS = ('the 21 header lines VASP prints, each value symbolic in turn (numbers with sign, logicals in 6 spellings, texts with '
          'symbolic letters) with the others fixed; lines missing, reordered, joined by ; or followed by remarks; 11 functionals in '
          'either letter case; one or two data sets in the file; path and handler')
ASSUMPTIONS = ['numbers are in fixed-point notation or have an exponent without plus sign, every printed key has a value on its line']

FLOATS = ['EATOM', 'RPACOR', 'POMASS', 'ZVAL', 'RCORE', 'RWIGS', 'ENMAX', 'ENMIN', 'RCLOC', 'EAUG', 'DEXC', 'RMAX', 'RAUG', 'RDEP',
          'RDEPT']
INTS = ['IUNSCR', 'ICORE', 'NDATA']
LOGS = ['LULTRA', 'LCOR', 'LPAW']
TAIL = {'EATOM': ' eV,    7.5752 Ry', 'LULTRA': '    use ultrasoft PP ?', 'IUNSCR': '    unscreen: 0-lin 1-nonlin 2-no',
        'RPACOR': '    partial core radius', 'RCORE': '    outmost cutoff radius', 'ICORE': '        local potential',
        'LCOR': '    correct aug charges', 'ENMIN': ' eV', 'ZVAL': '    mass and valenz', 'RMAX': '    core radius for proj-oper'}
FUNC = {'pe': ('PBE', 'GGA'), '91': ('PW91', 'GGA'), 'rp': ('revPBE', 'GGA'), 'am': ('AM05', 'GGA'), 'ps': ('PBEsol', 'GGA'),
        'pw': ('PW86', 'GGA'), 'lm': ('Langreth-Mehl-Hu', 'GGA'), 'pb': ('Perdew-Becke', 'GGA'), 'ca': ('Perdew-Zunger81', 'LDA'),
        'hl': ('Hedin-Lundquist', 'LDA'), 'wi': ('Wigner Interpoloation', 'LDA'), 'xx': (None, None)}


def defaults():
    d = {'VRHFIN': 'Si: s2p2', 'LEXCH': 'PE', 'TITEL': 'PAW_PBE Si 05Jan2001', 'STEP': [20.0, 1.05]}
    for i, k in enumerate(FLOATS):
        d[k] = 1.5 + i / 8
    for i, k in enumerate(INTS):
        d[k] = 2 + i
    for i, k in enumerate(LOGS):
        d[k] = i != 1
    return d


def textof(d):
    t = {}
    for k, v in d.items():
        t[k] = ('T' if v else 'F') if isinstance(v, bool) else f'{v:8d}' if isinstance(v, int) else f'{v:9.3f}' \
            if isinstance(v, float) else '   20.000   1.050' if k == 'STEP' else v
    return t


def line(h, key, txt, tail=None):
    return h.join('', [f'   {key:6s} = ', txt, TAIL.get(key, '') if tail is None else tail])


def document(h, t, reverse=False, joined=True, remark=''):
    """Header lines the way VASP prints them (t: texts of the values)."""
    L = [h.join('', ['   VRHFIN =', t['VRHFIN']])]
    pairs = [('POMASS', 'ZVAL'), ('ENMAX', 'ENMIN')]
    seconds = {b for _, b in pairs}
    for k in ['LEXCH', 'EATOM', '', 'TITEL', 'LULTRA', 'IUNSCR', 'RPACOR', 'POMASS', 'ZVAL', 'RCORE', 'RWIGS', 'ENMAX', 'ENMIN',
              'RCLOC', 'LCOR', 'LPAW', 'EAUG', 'DEXC', 'RMAX', 'RAUG', 'RDEP', 'RDEPT', 'ICORE', '']:
        if k and k not in t:
            continue
        if joined and k in dict(pairs) and dict(pairs)[k] in t:
            k2 = dict(pairs)[k]
            L.append(h.join('', [line(h, k, t[k], ''), '; ', f'{k2:6s} = ', t[k2], TAIL.get(k2, '')]))
        elif joined and k in seconds and [a for a, b in pairs if b == k][0] in t:
            continue
        elif k == 'RWIGS':
            # printed twice, in atomic units and in Angstrom; the latter counts
            L.append(h.join('', ['   RWIGS  =    2.480; RWIGS  = ', t[k], '    wigner-seitz radius (au A)']))
        else:
            L.append(line(h, k, t[k]) if k else '')
    if reverse:
        L.reverse()
    L += ['   Atomic configuration', '    2 entries', '     n  l   j            E        occ.', '     1  0  0.50     -1785.8828    2.0000',
          '   Description', '     l       E           TYP  RCUT    TYP  RCUT', '   Error from kinetic energy argument (eV)']
    for k in ('NDATA', 'STEP'):
        if k in t:
            L.append(line(h, k, t[k]))
    return [' parameters from PSCTR are:'] + L + [remark, 'END of PSCTR-controll parameters']


def wrap(L, title='  PAW_PBE Si 05Jan2001'):
    return [title, '   4.00000000000000'] + L + [' local part', '  72.0  ENMAX  =  999.9', '   -0.1E+01  0.2E+02', 'End of Dataset']


def parse(h, L, src='handler'):
    P = h.mod('potcar').Potcar
    text = h.lines(L)
    if src == 'path':
        p = h.path(text)
        return h.run(lambda: P(file_path=p, logger=h.logger))
    return h.run(lambda: P(file_handler=h.file(text), logger=h.logger))


def compare(h, k, d):
    h.eq(k.metadata, d, 'header fields')
    for key, v in d.items():
        h.eq(getattr(k, key.lower()), v, 'attribute access')
        h.eq(getattr(k, key), v, 'attribute access')
    r = h.run(lambda: k.nothing)
    h.check(r.kind == 'exc' and r.exc == 'AttributeError', 'an unknown attribute is an AttributeError')


def value(h, key):
    """Symbolic text of the field and its value."""
    if key in FLOATS:
        width = h.choice('width', [0, 9, 'E-02', 'e-01'])
        n = h.enum('x', 3, int(width[1:]), letter=width[0]) if isinstance(width, str) else h.num('x', 3, -99, 99999, width)
        return n.text, n.val
    if key in INTS:
        n = h.inum('x', -99, 99999, h.choice('width', [0, 9]))
        return n.text, n.val
    if key in LOGS:
        s = h.choice('log', [('T', True), ('F', False), ('.TRUE.', True), ('.FALSE.', False), ('t', True), ('false', False)])
        return s
    if key == 'STEP':
        n, gap = h.choice('n', [2, 1, 3]), h.choice('gap', ['   ', ' ', ' ' * 6])
        v = [h.num(x, p, -9, 99) for x, p in (('x', 3), ('y', 3), ('z', 5))][:n] + ([h.inum('i', 0, 99)] if n == 1 else [])
        return h.join('', ['  ', h.join(gap, [x.text for x in v])]), [x.val for x in v]
    w = h.chars('w', 3, 'aBz_19')
    s = {'VRHFIN': [w, ': s2p2'], 'TITEL': ['PAW_PBE ', w, ' 05Jan2001'], 'LEXCH': [w]}[key]
    s = h.join('', s)
    return h.join('', [s, h.choice('blanks', ['', '  '])]), s


def one(h):
    """Each field with every value, the others fixed, and with every other field missing."""
    key = h.choice('key', FLOATS + INTS + LOGS + ['STEP', 'VRHFIN', 'TITEL', 'LEXCH'])
    layout = h.choice('layout', ['plain', 'reverse', 'alone'])
    joined = h.choice('joined', [True, False]) if key in ('POMASS', 'ZVAL', 'ENMAX', 'ENMIN') else layout == 'plain'
    d = defaults()
    if layout == 'alone':
        d = {k: d[k] for k in ('VRHFIN', 'TITEL', 'LEXCH')}
    t = textof(d)
    t[key], d[key] = value(h, key)
    L = document(h, t, layout == 'reverse', joined)
    if layout == 'reverse' and key == 'RWIGS':
        pass
    r = parse(h, wrap(L))
    h.check(r.ok, 'POTCAR is parsed')
    compare(h, r.value, d)


def names(h):
    """Symbol, element and functional."""
    el = h.join('', [h.char('e0', 'HSW'), h.choice('e1', ['', 'i', 'n'])])
    suf = h.choice('suffix', ['', '_pv', '_sv_GW', '.5'])
    tag = h.choice('tag', list(FUNC))
    form = h.choice('form', ['PAW_PBE %s 05Jan2001', 'US %s', '%s'])
    d = defaults()
    sym = h.join('', [el, suf])
    d['TITEL'] = h.join('', [form.split('%s')[0], sym, form.split('%s')[1]])
    d['LEXCH'] = h.anycase('lexch', tag)
    t = textof(d)
    r = parse(h, wrap(document(h, t)))
    h.check(r.ok, 'POTCAR is parsed')
    k = r.value
    h.eq(k.symbol, sym, 'symbol')
    h.eq(k.element, h.join('', [el, suf if suf == '.5' else '']), 'element')
    h.eq([k.functional, k.functional_class], list(FUNC[tag]), 'functional and its class')
    h.eq(k.titel, d['TITEL'], 'title')


def surroundings(h):
    """Other lines and further data sets do not matter."""
    noise = h.choice('noise', ['', '   XENMAX =  1.0', '   ENMAXX =  1.0', '   something else', '   RCUT   =  1.0; MENMIN = 2.0',
                               '   unknown = ENMAX'])
    second = h.choice('second', [False, True])
    src = h.choice('src', ['handler', 'path'])
    n = h.num('x', 3, 0, 999, 9)
    d = defaults()
    t = textof(d)
    t['ENMAX'], d['ENMAX'] = n.text, n.val
    L = wrap(document(h, t, remark=noise))
    if second:
        o = textof(defaults())
        o.update(ENMAX='   77.000', TITEL='PAW_PBE O 08Apr2002', LEXCH='CA', LPAW='F')
        L += wrap(document(h, o), '  PAW_PBE O 08Apr2002')
    r = parse(h, L, src)
    h.check(r.ok, 'POTCAR is parsed')
    compare(h, r.value, d)
    h.eq([r.value.symbol, r.value.functional], ['Si', 'PBE'], 'symbol and functional of the first data set')


def harnesses(tier):
    return [('one', one), ('names', names), ('surroundings', surroundings)]
