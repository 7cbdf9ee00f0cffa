"""OUTCAR tables: symmetry, elastic moduli and magnetization are reported under their own names and indices."""
from symex.harness import Tok

from .P12 import NOISE, iteration, parse

BOUNDS = ('magnetization of 1-3, 11 and 101 sites with 3 or 4 orbitals for one or three directions, 1-2 tables per direction (the last one '
          'counts), 0-3 components of the cell magnetization; every selection of the three elastic tables and of contribution '
          'tables around them, 1-2 times; 1-2 symmetry analyses of primitive cells and supercells; every number symbolic')
ASSUMPTIONS = ['tables are complete; columns are separated by blanks']

HEAD = ['   NELM   =     60;   NELMIN=  2; NELMDL=  0     # of ELM steps', '   NSW    =     61    number of steps for IOM']
FOOT = [' General timing and accounting informations for this job:']
AX = ['XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX']
ORB = 'spdf'


def elastic_table(h, title, name):
    t = [[h.num(f'{name}_{i}{j}', 4, -9999, 9999, 12) for j in range(6)] for i in range(6)]
    L = [title, ' Direction    XX          YY          ZZ          XY          YZ          ZX', ' ' + '-' * 80]
    L += [h.join('', [' ', a, '     '] + [h.join('', [' ', x.text]) for x in r]) for a, r in zip(AX, t)]
    return L + [' ' + '-' * 80, ''], [[x.val for x in r] for r in t]


def elastic(h):
    which = h.choice('which', [(), ('n',), ('s',), ('t',), ('n', 's', 't'), ('n', 's', 'c', 't'), ('n', 'n'), ('s', 's'), ('t', 's', 't')])
    noise = h.choice('noise', NOISE[:3])
    L = HEAD + [iteration(1, 1), noise]
    exp = {'non_symmetrized': None, 'symmetrized': None, 'total': None}
    key = {'n': 'non_symmetrized', 's': 'symmetrized', 't': 'total'}
    for k, w in enumerate(which):
        title = {'n': '  ELASTIC MODULI  (kBar)', 's': '  SYMMETRIZED ELASTIC MODULI (kBar)', 't': ' TOTAL ELASTIC MODULI (kBar)',
                 'c': ' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)'}[w]
        T, v = elastic_table(h, title, f'e{k}')
        L += T
        if w != 'c':
            exp[key[w]] = v
    r = parse(h, L + FOOT)
    h.check(r.ok, 'OUTCAR is parsed')
    h.eq(r.value.get_elastic_moduli(), exp, 'elastic moduli under their names, rows and columns')


def mag_table(h, d, n, norb, name):
    L = [f' magnetization ({d})', '', '# of ion     ' + '       '.join(ORB[:norb]) + '       tot', '-' * 42]
    sites = {}
    for i in range(n):
        if n > 99 and 2 < i < n - 3:
            v = [Tok(f'{(i + j) / 64:8.3f}', float(f'{(i + j) / 64:8.3f}')) for j in range(norb + 1)]
        else:
            v = [h.num(f'{name}{d}{i}{j}', 3, -9, 9, 8) for j in range(norb + 1)]
        L.append(h.join('', [f'{i + 1:5d}     '] + [h.join('', [' ', x.text]) for x in v]))
        sites[i + 1] = {o: x.val for o, x in zip(list(ORB[:norb]) + ['tot'], v)}
    if n > 1:
        v = [h.num(f'{name}{d}t{j}', 3, -9, 9, 8) for j in range(norb + 1)]
        L += ['-' * 50, h.join('', ['tot       '] + [h.join('', [' ', x.text]) for x in v])]
        tot = {o: x.val for o, x in zip(list(ORB[:norb]) + ['tot'], v)}
    else:
        tot = sites[1]
    return L + [''], {'site_moment': sites, 'total_magnetization': tot}


def magnetization(h):
    n = h.choice('sites', [1, 2, 3, 11, 101])
    norb = h.choice('orbitals', [3, 4] if n < 9 else [3])
    dirs = h.choice('directions', ['', 'x', 'xyz'] if n < 9 else ['x', 'xyz'] if n < 99 else ['x'])
    times = h.size('tables', 1, 2) if dirs and n < 99 else 1
    ncell = h.choice('cell', [None, 0, 1, 3] if n < 9 else [1])
    noise = h.choice('noise', [None, '   LOOP+:  cpu time    3.67', '']) if dirs == 'x' else None
    L = list(HEAD)
    exp = {'sphere': {d: {'site_moment': {}, 'total_magnetization': {}} for d in 'xyz'}, 'full_cell': {}}
    for t in range(times):
        L.append(iteration(t + 1, 1))
        if ncell is not None:
            ne = h.num(f'ne{t}', 7, 0, 999, 16)
            m = [h.num(f'mc{t}_{j}', 7, -99, 99, 16) for j in range(ncell)]
            L.append(h.join('', [' number of electron', ne.text, ' magnetization'] + [h.join('', [' ', x.text]) for x in m]))
            exp['full_cell'] = [x.val for x in m]
        for d in dirs:
            T, e = mag_table(h, d, n, norb, f'm{t}')
            exp['sphere'][d] = e
            L += T + ([noise] if noise is not None else [''])
    r = parse(h, L + FOOT, 'path' if noise == '' else 'handler')
    h.check(r.ok, 'OUTCAR is parsed')
    g = r.value.get_magnetization()
    h.eq(g['full_cell'], exp['full_cell'], 'cell magnetization')
    for d in 'xyz':
        h.eq(g['sphere'][d]['site_moment'], exp['sphere'][d]['site_moment'], 'site moments by site and orbital')
        h.eq(g['sphere'][d]['total_magnetization'], exp['sphere'][d]['total_magnetization'], 'total of the sites by orbital')


def symmetry(h):
    blocks = h.choice('blocks', [('static',), ('dynamic',), ('static', 'dynamic'), ('static', 'dynamic', 'static'), ()])
    empty = {'static': [], 'dynamic': []}
    exp = {'num_space_group_operations': {k: [] for k in empty}, 'original_cell_type': {k: [] for k in empty},
           'symmetrized_cell_type': {k: [] for k in empty}}
    L = list(HEAD)
    for k, b in enumerate(blocks):
        L += ['Analysis of symmetry for initial positions (statically):' if b == 'static' else
              'Analysis of symmetry for dynamics (positions and initial velocities):', '=' * 60]
        if h.choice(f'primitive{k}', [True, False]):
            L += [' Subroutine PRICEL returns:', ' Original cell was already a primitive cell.', '']
            exp['original_cell_type'][b].append('primitive cell')
        else:
            n = h.inum(f'cells{k}', 2, 99, 5)
            L += [' Subroutine PRICEL returns following result:', '', ' LATTYP: Found a simple cubic cell.',
                  h.join('', [n.text, ' primitive cells build up your supercell.']), '']
            exp['original_cell_type'][b].append(h.join('', [n.text.strip(), ' primitive cells']))
        word = h.chars(f'word{k}', 3, 'ABcd')
        L += [' Routine SETGRP: Setting up the symmetry group for a', h.join('', [' ', word, ' Tetragonal supercell.']), '']
        exp['symmetrized_cell_type'][b].append(h.join('', [word.lower(), ' tetragonal supercell.']))
        n = h.inum(f'ops{k}', 1, 192, 5)
        L += [h.join('', [' Subroutine GETGRP returns: Found ', n.text, ' space group operations']),
              ' (whereof 24 operations were pure point group operations)', ' out of a pool of 48 trial point group operations.']
        exp['num_space_group_operations'][b].append(n.val)
    L += [iteration(1, 1)] + FOOT
    r = parse(h, L)
    h.check(r.ok, 'OUTCAR is parsed')
    h.eq(r.value.get_symmetry(), exp, 'symmetry data of each analysis, static and dynamic apart')


def harnesses(tier):
    return [('elastic', elastic), ('magnetization', magnetization), ('symmetry', symmetry)]
