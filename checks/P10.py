"""EIGENVAL: every eigenvalue, k-point, weight and header count lands where the file puts it."""

from symex.harness import Tok

BOUNDS = ('1-3 k-points, 1-3 bands, 1-2 spin channels, with and without occupancy columns, 0-2 trailing blank lines, '
          'LF or CRLF line ends, whitespace-only separators; 11 or 12 k-points or bands next to 1 or 2 of the other; 1002 bands; all numbers symbolic')

MANY = [(11, 1), (1, 11), (12, 2), (2, 12), (1, 1002)]


def doc(h, nk, nb, ns, occ, sep, trail, eol):
    n = {}
    L = []
    n['ions'] = h.inum('ions', 0, 999, 5)
    n['atoms'] = h.inum('atoms', 0, 999, 5)
    n['p00'] = h.inum('p00', 0, 99999, 6)
    L.append(h.join('', [n['ions'].text, n['atoms'].text, n['p00'].text, f'{ns:5d}']))
    n['l1'] = [h.enum(f'l1{i}', 7, e, 0, sign=False) for i, e in enumerate((2, -9, -9, -9, -15))]
    L.append(h.row(*n['l1']))
    n['l2'] = h.enum('l2', 7, -4, 0, sign=False)
    L.append(h.row(n['l2']))
    n['coord'] = 'CAR' if occ else 'dir'
    L.append('  ' + n['coord'] + ' ')
    n['name'] = 'unknown é system' if occ else 'unknown system'
    L.append(' ' + n['name'] + '   ')
    n['p0'] = h.inum('p0', 0, 999, 5)
    L.append(h.join('', [n['p0'].text, f'{nk:5d}', f'{nb:5d}']))
    n['kp'], n['ev'] = [], [[[None] * nb for _ in range(nk)] for _ in range(ns)]
    for k in range(nk):
        L.append(sep)
        kp = [h.enum(f'k{k}{c}', 7, 0) for c in range(3)] + [h.enum(f'w{k}', 7, 0)]
        n['kp'].append(kp)
        L.append(h.row(*kp))
        for b in range(nb):
            if 1 < b < nb - 2 and nb > 99:
                ev = [Tok(f'{(b + s) / 64:14.6f}', float(f'{(b + s) / 64:14.6f}')) for s in range(ns)]
            else:
                ev = [h.num(f'e{k}_{b}_{s}', 6, -999, 999, 14) for s in range(ns)]
            for s in range(ns):
                n['ev'][s][k][b] = ev[s].val
            oc = [h.num(f'o{k}_{b}_{s}', 6, 0, 1, 12) if nb < 99 else Tok('    1.000000', 1) for s in range(ns)] if occ else []
            L.append(h.join('', [f'{b + 1:5d}'] + [x.text for x in ev + oc]))
    text = h.lines(L, eol) + eol * trail
    return text, n


def make(nk_hi, nb_hi, big=None):
    def har(h):
        if big:
            nk, nb = h.choice('n', big)
        else:
            nk, nb = h.size('nk', 1, nk_hi), h.size('nb', 1, nb_hi)
        ns = h.size('ns', 1, 2)
        occ = h.choice('occ', [False, True])
        # one departure from the plainest layout at a time
        var = h.choice('variant', ['plain', 'blank separator', 'tab separator', 'one trailing blank line',
                                   'two trailing blank lines', 'path', 'path crlf'][::3 if big else 1])
        sep = {'blank separator': ' ', 'tab separator': '  \t'}.get(var, '')
        trail = {'one trailing blank line': 1, 'two trailing blank lines': 2}.get(var, 0)
        text, n = doc(h, nk, nb, ns, occ, sep, trail, '\r\n' if 'crlf' in var else '\n')
        src = 'path' if 'path' in var else 'handler'
        E = h.mod('eigenval').Eigenval
        if src == 'handler':
            r = h.run(lambda: E(file_handler=h.file(text), logger=h.logger))
        else:
            p = h.path(text)
            r = h.run(lambda: E(file_path=p, logger=h.logger))
        h.check(r.ok, 'well-formed EIGENVAL is parsed')
        e = r.value
        h.eq(e.get_eigenvalues(), n['ev'], 'eigenvalues[spin][kpoint][band]')
        h.eq(e.get_kpoints(), [[x.val for x in kp] for kp in n['kp']], 'k-points and weights')
        m = e.get_metadata()
        h.eq([m['n_ions'], m['n_atoms'], m['p00'], m['nspin'], m['n_kp'], m['n_bands'], m['some_num']],
             [n['ions'].val, n['atoms'].val, n['p00'].val, ns, nk, nb, n['p0'].val], 'header counts')
        h.eq([m[1], m[2]], [[x.val for x in n['l1']], n['l2'].val], 'header numbers')
        h.eq([m['cartesian'], m['name']], [n['coord'][0] in 'cC', n['name']], 'coordinate type and system name')
    return har


def harnesses(tier):
    if tier == 'quick':
        return [('layout', make(2, 2)), ('many', make(0, 0, MANY))]
    return [('layout', make(3, 3)), ('many', make(0, 0, MANY + [(11, 11), (101, 1), (1, 100)]))]
