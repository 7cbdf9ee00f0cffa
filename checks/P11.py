"""DOSCAR: every density value is attributed to its energy, ion, orbital and spin component; header data exact."""

ORB = {3: ['s', 'p', 'd'], 4: ['s', 'p', 'd', 'f'],
       9: ['s', 'py', 'px', 'pz', 'dxy', 'dyz', 'dz2', 'dxz', 'dx2-y2'],
       16: ['s', 'py', 'px', 'pz', 'dxy', 'dyz', 'dz2', 'dxz', 'dx2-y2', 'fy(3x2-y2)', 'fxyz', 'fyz2', 'fz3', 'fxz2',
            'fz(x2-y2)', 'fx(x2-3y2)']}

BOUNDS = ('1-3 ions, 1-3 energies, total columns 3/5, partial columns 4/5/7/9/10/17/19/33 collinear and 13/17/37/65 '
          'non-collinear, or none; 11 ions or 11 energies next to 1 or 2 of the other; 0-2 trailing blank lines, handler, path, CRLF; all numbers symbolic')


def make(nd_hi, ni_hi, big=None):
    def har(h):
        # (orbitals, spin components)
        form = h.choice('form', [(3, 1), (9, 2), (0, 2), (3, 4)] if big else
                        [(0, 1), (0, 2)] + [(o, s) for o in (3, 4, 9, 16) for s in (1, 2, 4)])
        norb, comp = form
        nd, ni = h.choice('n', big) if big else (h.size('nd', 1, nd_hi), h.size('ni', 1, ni_hi))
        var = 'plain' if big else h.choice('variant', ['plain', 'one trailing blank line', 'two trailing blank lines', 'path', 'path crlf',
                                   'direct'])
        L = []
        atoms = h.inum('atoms', 0, 999, 4)
        L.append(h.join('', [f'{ni:4d}', atoms.text, f'{1 if norb else 0:4d}', '   0']))
        L.append(h.row(*[h.enum(f'l1{i}', 7, e, 0, sign=False) for i, e in enumerate((2, -9, -9, -9, -15))]))
        L.append(h.row(h.enum('l2', 7, -4, 0, sign=False)))
        L.append('  direct' if var == 'direct' else '  CAR ')
        L.append(' unknown system' + ' ' * 10)
        emax, emin = h.num('emax', 8, 50, 99, 16), h.num('emin', 8, -99, -50, 16)
        ef, w = h.num('efermi', 8, -49, 49, 16), h.num('weight', 8, 0, 1, 16)
        head = h.join('', [emax.text, emin.text, f'{nd:5d}', ef.text, w.text])
        L.append(head)
        tc = 2 if comp == 2 else 1
        exp = {'energy': [], 'total': [], 'integrated': []}
        E = [h.num(f'E{k}', 3, -49, 49, 11) for k in range(nd)]
        for k in range(nd):
            tot = [h.enum(f't{k}_{s}', 4, 1) for s in range(tc)]
            inte = [h.enum(f'i{k}_{s}', 4, 2) for s in range(tc)]
            L.append(h.join('', [E[k].text, h.row(*(tot + inte))]))
            exp['energy'].append(E[k].val)
            v = lambda ts: ts[0].val if tc == 1 else [t.val for t in ts]
            exp['total'].append(v(tot))
            exp['integrated'].append(v(inte))
        pe = None
        if norb:
            pe = {n: [[None] * nd for _ in range(ni)] for n in ['energy'] + ORB[norb]}
            for a in range(ni):
                L.append(head)
                for k in range(nd):
                    cells = []
                    pe['energy'][a][k] = E[k].val
                    for o in ORB[norb]:
                        t = [h.enum(f'p{a}_{k}_{o}_{s}', 4, 0) for s in range(comp)]
                        cells += t
                        pe[o][a][k] = t[0].val if comp == 1 else [x.val for x in t]
                    L.append(h.join('', [E[k].text, h.row(*cells)]))
        eol = '\r\n' if 'crlf' in var else '\n'
        text = h.lines(L, eol) + eol * {'one trailing blank line': 1, 'two trailing blank lines': 2}.get(var, 0)
        D = h.mod('doscar').Doscar
        if 'path' in var:
            p = h.path(text)
            r = h.run(lambda: D(file_path=p, logger=h.logger, non_collinear=comp == 4))
        else:
            r = h.run(lambda: D(file_handler=h.file(text), logger=h.logger, non_collinear=comp == 4))
        h.check(r.ok, 'well-formed DOSCAR is parsed')
        d = r.value
        h.eq(d.get_dos(), exp, 'total and integrated density per energy and spin')
        if norb:
            h.eq(d.get_pdos(), pe, 'partial density per ion, energy, orbital and spin component')
        else:
            h.check(d.get_pdos().size == 0, 'no partial density invented')
        m = d.get_metadata()
        h.eq([m[k] for k in ('n_ions', 'n_atoms', 'n_dos', 'cartesian', 'name')],
             [ni, atoms.val, nd, var != 'direct', 'unknown system'], 'header counts, coordinate type and name')
        h.eq([m[k] for k in ('emax', 'emin', 'efermi', 'weight')], [emax.val, emin.val, ef.val, w.val],
             'energy window, Fermi level and weight')
    return har


def harnesses(tier):
    if tier == 'quick':
        return [('layout', make(2, 2)), ('many', make(0, 0, [(1, 11), (11, 1), (12, 2)]))]
    return [('layout', make(3, 3)), ('many', make(0, 0, [(1, 11), (11, 1), (12, 2), (2, 12), (11, 11)]))]
