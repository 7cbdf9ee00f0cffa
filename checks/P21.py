"""The same content gives the same result whatever its source and line ends."""
from checks import P10, P12, P14, P15, inc, kp, pc, vx
from checks.P17 import finish, start
from checks.P19 import sections

BOUNDS = ('small files of each kind (a few layouts per parser, one of them refused, one with letters outside ASCII, and form feeds and other separators inside the lines) from a path, a handler and, for the input files, a '
          'string, with LF or CRLF line ends (path, and text that keeps the carriage returns), with and without a newline at the end; all '
          'numbers and letters symbolic; the vasprun.xml with both parsing methods')

# characters at which str.splitlines divides a text and a file does not
ODD = ['\x0c', '\x0b', '\x1c', '\x85', '\u2028']
ACCENTS = 'Ångström é 中 \u03b1'

# (source, line end, newline at the end)
FILES = [('path', '\r\n', True), ('path', '\n', False), ('path', '\r\n', False), ('handler', '\n', True), ('handler', '\n', False),
         ('handler', '\r\n', True), ('handler', '\r\n', False)]
STRINGS = [('string', '\n', True), ('string', '\r\n', True), ('string', '\n', False), ('string', '\r\n', False)]


def build(h, K, prefix, L, source, **kw):
    src, eol, last = source
    text = h.join('', [h.join(eol, L), eol if last else ''])
    if src == 'string':
        return h.run(lambda: K(**{prefix + '_string': text}, logger=h.logger, **kw))
    if src == 'handler':
        return h.run(lambda: K(file_handler=h.file(text), logger=h.logger, **kw))
    p = h.path(text)
    return h.run(lambda: K(file_path=p, logger=h.logger, **kw))


def agree(h, name, cls, L, see, strings, want, **kw):
    """The reference is the file with Unix line ends opened by path."""
    K = getattr(h.mod(name), cls)
    ref = build(h, K, name, L, ('path', '\n', True), **kw)
    src = h.choice('source', FILES + (STRINGS if strings else []))
    o = build(h, K, name, L, src, **kw)
    h.check((o.kind, o.code, o.exc) == (ref.kind, ref.code, ref.exc), 'the same outcome')
    h.check(ref.ok is want, 'accepted' if want else 'refused')
    if want:
        h.eq(see(o.value), see(ref.value), 'the same result')


def incar(h, use=agree):
    kind = h.choice('kind', inc.KINDS + ['comments', 'separators', 'accents', 'blanks', 'joined', 'refused'])
    if kind in inc.KINDS:
        t, _ = inc.value(h, kind, 0)
        L = [h.join('', [inc.TAG[kind], ' = ', t]), 'ISYM = 0']
    elif kind == 'comments':
        L = ['# first', h.join('', ['ENCUT = ', h.inum('a', 1, 99).text, ' # why ']), h.join('', ['ALGO=', h.chars('b', 2, inc.LETTERS), '#'])]
    elif kind == 'separators':
        L = [h.join('', ['ENCUT = ', h.inum('a', 1, 99).text, ' # why', h.choice('character', ODD), 'ISMEAR = 0']),
             h.join('', ['ALGO = ', h.chars('b', 2, inc.LETTERS)])]
    elif kind == 'accents':
        L = ['# 2.5 Å', h.join('', ['SYSTEM = ', h.chars('b', 1, inc.LETTERS), 'é ', ACCENTS]), 'ISYM = 0 # ' + ACCENTS]
    elif kind == 'blanks':
        L = ['', ' ', h.join('', [' ENCUT  =\t', h.inum('a', 1, 99).text, '  ']), '', h.join('', ['ALGO=', h.chars('b', 2, inc.LETTERS)]), '']
    elif kind == 'joined':
        L = [h.join('', ['ENCUT = ', h.inum('a', 1, 99).text, '; ALGO = ', h.chars('b', 2, inc.LETTERS), ' ;'])]
    else:
        L = [h.join('', ['ALGO ', h.chars('b', 2, inc.LETTERS)])]

    def see(k):
        return {t: list(k.get(t, comment=True)) for t in k.get_dict()}
    use(h, 'incar', 'Incar', L, see, True, kind != 'refused')


def kpoints(h, use=agree):
    kind = h.choice('kind', ['explicit', 'tetrahedra', 'automatic', 'shift', 'generating', 'line', 'line blank', 'accents', 'separators', 'refused'])
    if kind in ('explicit', 'tetrahedra', 'accents', 'separators'):
        L, _ = kp.explicit(h, 2, 1 if kind == 'tetrahedra' else None, True)
    elif kind in ('automatic', 'shift'):
        L, _ = kp.automatic(h, 'Gamma', kind == 'shift')
    elif kind == 'generating':
        L, _ = kp.grg(h)
    elif 'line' in kind:
        L, _ = kp.line(h, 2, label=' ! X')
        if 'blank' in kind:
            L.append(' ')
    else:
        L = ['0', 'Auto', h.inum('a', 1, 99).text]
    L = [ACCENTS if kind == 'accents' else 'a' + h.choice('character', ODD) + 'b' if kind == 'separators' else 'a comment'] + L

    def see(k):
        d = k.get_dict()
        return {n: d[n] for n in d}
    use(h, 'kpoints', 'Kpoints', L, see, True, kind != 'refused')


def poscar(h, use=agree):
    kind = h.choice('kind', ['direct', 'selective', 'velocities', 'cartesian velocities', 'predictors', 'cartesian', 'blank', 'remarks', 'accents', 'separators', 'ungrouped', 'refused'])
    kw = {}
    if kind == 'selective':
        kw['selective'] = True
    if kind in ('velocities', 'predictors'):
        kw['vel'] = ''
    if kind == 'cartesian velocities':
        kw['vel'] = 'Cartesian'
    if kind == 'predictors':
        kw['pred'] = True
    if kind == 'cartesian':
        kw['kind'] = 'Cartesian'
    if kind == 'remarks':
        kw['extra'] = '  Si1'
    if kind == 'accents':
        kw['comment'] = ACCENTS
    if kind == 'separators':
        kw['comment'] = 'a' + h.choice('character', ODD) + 'b'
    L, d = pc.document(h, [('O', 1), ('Si', 1), ('O', 1)] if kind == 'ungrouped' else [('Si', 1), ('O', 1)], **kw)
    if kind == 'blank':
        L += ['', ' ']
    if kind == 'refused':
        del L[5]

    def see(k):
        g = k.get_dict()
        return {'comment': g['comment'], 'unitcell': g['unitcell'], 'sites': [dict(s) for s in g['sites']]}
    use(h, 'poscar', 'Poscar', L, see, True, kind != 'refused')


def eigenval(h, use=agree):
    ns, occ = h.choice('form', [(1, False), (2, True)])
    trail = h.choice('trail', [0, 1])
    sep = h.choice('sep', ['', ' '])
    text, n = P10.doc(h, 2, 1, ns, occ, sep, 0, '\n')
    L = split(h, text) + [''] * trail

    def see(k):
        return [k.get_eigenvalues(), k.get_kpoints(), k.get_metadata()]
    use(h, 'eigenval', 'Eigenval', L, see, False, True)


def split(h, text):
    """Lines of a text that ends with a newline."""
    return text.split('\n')[:-1]


def doscar(h, use=agree):
    ns, part = h.choice('form', [(1, False), (2, False), (1, True)])
    trail = h.choice('trail', [0, 1])
    L = [h.join('', ['   1', h.inum('atoms', 0, 999, 4).text, '   1   0']), h.row(*[h.enum(f'l1{i}', 7, 2, 0, sign=False) for i in range(5)]),
         h.row(h.enum('l2', 7, -4, 0, sign=False)), '  CAR ', h.choice('system', [' unknown system', ' ' + ACCENTS]) + ' ' * 10]
    head = h.join('', [h.num('emax', 8, 50, 99, 16).text, h.num('emin', 8, -99, -50, 16).text, '    2', h.num('ef', 8, -49, 49, 16).text,
                       h.num('w', 8, 0, 1, 16).text])
    L.append(head)
    for k in range(2):
        L.append(h.join('', [h.num(f'E{k}', 3, -49, 49, 11).text, h.row(*[h.enum(f't{k}_{s}', 4, 1) for s in range(2 * ns)])]))
    if part:
        L.append(head)
        for k in range(2):
            L.append(h.join('', [h.num(f'F{k}', 3, -49, 49, 11).text, h.row(*[h.enum(f'p{k}_{s}', 4, 0) for s in range(3)])]))
    L += [''] * trail

    def see(k):
        p = k.get_pdos()
        return [k.get_dos(), p if part else p.size, k.get_metadata()]
    use(h, 'doscar', 'Doscar', L, see, False, True)


def chgcar(h, use=agree):
    nset, aug, trail = h.choice('form', [(1, False, 0), (1, True, 0), (2, True, 0), (2, False, 1), (4, False, 0)])
    L = [ACCENTS if aug else 'comment', '   1.0', '  1.5 0.25 0.0', '  0.0 2.0 0.5', '  0.25 0.0 3.0', '   Si', '     1', 'Direct',
         h.row(*[h.num(f'x{j}', 6, 0, 1, 10) for j in range(3)]), '']
    for s in range(nset):
        L.append('    1    2    3')
        v = [h.enum(f'v{s}_{i}', 5, 1) for i in range(6)]
        L += [h.row(*v[:5]), h.row(*v[5:])]
        if aug:
            L += ['augmentation occupancies   1   2', h.row(*[h.enum(f'a{s}_{i}', 5, 0) for i in range(2)])]
    L += [''] * trail

    def see(k):
        m = k.magnetization_density
        return [k.charge_density, None if m is None else m if nset == 2 else {a: m[a] for a in 'xyz'}]
    use(h, 'chgcar', 'Chgcar', L, see, False, True)


def outcar(h, use=agree):
    from checks.P13 import elastic_table, mag_table
    kind = h.choice('kind', ['finished', 'unfinished', 'elastic', 'magnetization', 'symmetry', 'refused'])
    P, *_ = P12.params(h, None)
    L = list(P)
    if kind == 'symmetry':
        L += ['Analysis of symmetry for initial positions (statically):', '=' * 60, ' Subroutine PRICEL returns following result:', '',
              ' LATTYP: Found a simple cubic cell.', h.join('', [h.inum('cells', 2, 99, 5).text, ' primitive cells build up your supercell.']), '',
              ' Routine SETGRP: Setting up the symmetry group for a', h.join('', [' ', h.chars('w', 3, 'ABcd'), ' supercell.']), '',
              h.join('', [' Subroutine GETGRP returns: Found ', h.inum('ops', 1, 192, 5).text, ' space group operations'])]
    if kind != 'refused':
        L += [P12.iteration(1, 1), P12.iteration(1, 2)]
    if kind == 'elastic':
        L += elastic_table(h, ' TOTAL ELASTIC MODULI (kBar)', 'e')[0]
    if kind == 'magnetization':
        L.append(h.join('', [' number of electron   8.0000000 magnetization', h.num('m', 7, -99, 99, 16).text]))
        L += mag_table(h, 'x', 2, 3, 'm')[0]
    if kind != 'unfinished':
        L += ['', ' General timing and accounting informations for this job:', '']
        L += [h.join('', [f'{t:>44}:', h.num(f't{k}', 3, 0, 99999, 13).text]) for k, t in enumerate(P12.TIMES)]

    def see(k):
        return [k.get_run_status(), k.get_run_stats() if kind != 'unfinished' else None, k.get_elastic_moduli(), k.get_magnetization(), k.get_symmetry()]
    use(h, 'outcar', 'Outcar', L, see, False, kind != 'refused')


def potcar(h, use=agree):
    key = h.choice('key', ['ENMAX', 'LPAW', 'STEP', 'TITEL', 'NDATA', 'reversed', 'accents'])
    d = P14.defaults()
    t = P14.textof(d)
    if key == 'TITEL':
        t[key] = h.join('', ['PAW_PBE ', h.char('w', 'aB_ '), 'i 05Jan2001'])
    elif key == 'accents':
        t['TITEL'] = h.join('', ['PAW_PBE ', h.char('w', 'aB_ '), 'i 05Jan2001 ', ACCENTS])
    elif key == 'NDATA':
        t[key] = h.inum('x', -99, 999, 9).text
    elif key == 'LPAW':
        t[key] = h.choice('log', ['T', '.FALSE.'])
    elif key == 'STEP':
        t[key] = h.row(h.num('x', 3, 0, 99), h.num('y', 3, 0, 9))
    else:
        t['ENMAX'] = h.num('x', 3, -99, 999, 9).text
    L = P14.wrap(P14.document(h, t, key == 'reversed'))

    def see(k):
        return [k.metadata, k.symbol, k.element, k.functional, k.functional_class]
    use(h, 'potcar', 'Potcar', L, see, False, True)


def stream(h, use=agree):
    history = h.choice('history', [False, True])
    n = h.choice('n', [0, 1, 2])
    L = [P15.START, h.join('', [P15.MESSAGES['zbrent'][:7], h.char('c', 'faE'), P15.MESSAGES['zbrent'][8:]]), ''][:n + 1] + ([ACCENTS] if history else [])
    if n:
        L.append(h.join('', [' ', P15.MESSAGES['bandocc'][:-1], h.char('d', 'Sx')]))

    def see(k):
        return [P15.names(k), k.number_of_entries, [str(e) for e in k.entries]]
    use(h, 'stream', 'Stream', L, see, False, True, history=history)


GETTERS = ['kpoints', 'kpointsw', 'species', 'eigenvalues', 'occupancies', 'dos', 'projectors', 'hessian', 'dynmat', 'born', 'dielectrics',
           'version', 'parameters']


def vasprun(h):
    form = h.choice('form', [['eigenvalues', 'dos'], ['dynmat', 'born', 'tensors'], ['eigenvalues', 'partial', 'dos'], ['eigenvalues', 'projected'], []])
    d = vx.Doc(h, ('kpoints', 'pos', 'cell', 'force', 'stress', 'final', 'sc', 'dos', 'eig', 'born', 'hess'))
    start(h, d, 1, 1, ['Si'], 1, True)
    sections(d, form, 1, 1, 1, 1, 1)
    finish(d, 1)
    src, eol, last = h.choice('source', [s for s in FILES if s != ('handler', '\n', True)] + [('handler', '\n', True)])
    event = h.choice('event', [False, True])
    text = h.join('', [h.join(eol, d.L), eol if last else ''])
    ref, o = vx.parse(h, d, event, 'path'), vx.parse(h, text, event, src)
    h.check(ref.ok and o.ok, 'accepted')

    def see(x):
        types = ['energy_free', 'energy_no_entropy', 'energy_extrapolated']
        return [{g: getattr(x, 'get_' + g)() for g in GETTERS},
                {g: getattr(x, 'get_' + g)('all') for g in ('unitcell', 'positions', 'forces', 'stress')},
                x.get_energies('all', types, False), x.truncated]
    h.eq(see(o.value), see(ref.value), 'the same result')


def harnesses(tier):
    return [(f.__name__, f) for f in (incar, kpoints, poscar, eigenval, doscar, chgcar, outcar, potcar, stream, vasprun)]
