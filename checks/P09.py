"""CHGCAR: every grid value lands at [z][y][x] divided by the cell volume, per data set; augmentation data never leaks in."""
from symex.harness import Tok

BOUNDS = ('grids up to 3x2x2 (quick) / 3x3x3 (thorough) and 11 or 12 points along one direction, 1, 2 or 4 data sets, with or without augmentation occupancies and '
          'augmentation moments, 1 or 5 values per line; grid values symbolic (with a symbolic scale); a second harness '
          'with the full cell symbolic on one grid; cells of positive volume')

EXPO = [10, -10, 0, 4, -2]
CELLS = [[[2, 1, 0], [0, 3, -1], [1, 0, 7]], [['-1.5', 0, '0.25'], [0, '-2.5', 1], [0, 1, 3]]]


def det(a):
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def make(dims, symcell, nsets=(1, 2, 4), variants=('plain', 'augmentation', 'augmentation and moments', 'path',
                                                    'one per line', 'wide header', 'blank lines at the end', 'blank comment', 'long comment',
                                                    'hash comment', 'exponents')):
    def har(h):
        nx, ny, nz = h.choice('dims', dims)
        nset = h.choice('nset', nsets)
        var = h.choice('variant', variants)
        scal = h.num('scale', 6, '0.1', 9)
        if symcell:
            lat = [[h.num(f'a{i}{j}', 6, -9, 9, 12) for j in range(3)] for i in range(3)]
        else:
            cell = CELLS[(nx + nz) % 2]
            lat = [[Tok(f'{float(x):12.6f}', float(x)) for x in r] for r in cell]
        vol = scal.val * scal.val * scal.val * det([[x.val for x in r] for r in lat])
        h.assume(vol > 0)
        com = '' if var == 'blank comment' else '# comment' if var == 'hash comment' else '  2  1  1 augmentation ' * 4 if var == 'long comment' else 'comment'
        L = [com, h.row(scal)] + [h.join('', [x.text for x in r]) for r in lat]
        L += ['   Si', '     2', 'Direct']
        L += [h.join('', [h.num(f'x{i}{j}', 6, 0, 1, 10).text for j in range(3)]) for i in range(2)]
        L.append('')
        ngf = (f'{nx:6d}{ny:6d}{nz:6d}' if var == 'wide header' else f'{nx:5d}{ny:5d}{nz:5d}')
        n = nx * ny * nz
        per = 1 if var == 'one per line' else 5
        sets = []
        for s in range(nset):
            L.append(ngf)
            v = [h.enum(f'v{s}_{i}', 5, EXPO[(i + s) % len(EXPO)] if var == 'exponents' else 1) for i in range(n)]
            sets.append([[[v[x + nx * (y + ny * z)].val for x in range(nx)] for y in range(ny)] for z in range(nz)])
            for i in range(0, n, per):
                L.append(h.row(*v[i:i + per]))
            if 'augmentation' in var:
                for q in (1, 2):
                    L.append(f'augmentation occupancies {q:3d}   3')
                    L.append(h.row(*[h.enum(f'aug{s}_{q}_{i}', 5, 0) for i in range(3)]))
                if 'moments' in var and s + 1 < nset:
                    L.append(h.row(*[h.enum(f'mom{s}_{i}', 5, 0) for i in range(2)]))
        text = h.lines(L) + ('\n\n' if 'blank' in var else '')
        C = h.mod('chgcar').Chgcar
        if var == 'path':
            p = h.path(text)
            r = h.run(lambda: C(file_path=p, logger=h.logger))
        else:
            r = h.run(lambda: C(file_handler=h.file(text), logger=h.logger))
        h.check(r.ok, 'well-formed CHGCAR is parsed')
        c = r.value

        def scaled(arr):
            return None if arr is None else arr * vol
        tol = None if h.symbolic else 1e-6
        h.eq(scaled(c.charge_density), sets[0], 'charge density [z][y][x] times volume is the stored value', tol)
        mag = c.magnetization_density
        if nset == 1:
            h.check(mag is None, 'no magnetization without a second data set')
        elif nset == 2:
            h.eq(scaled(mag), sets[1], 'magnetization density [z][y][x]', tol)
        else:
            h.eq({k: scaled(x) for k, x in mag.items()}, dict(zip('xyz', sets[1:])), 'x, y, z magnetization density', tol)
    return har


def harnesses(tier):
    if tier == 'quick':
        d = [(1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 2, 3), (3, 2, 1), (2, 3, 2)]
        big = [(11, 1, 2), (1, 12, 1), (2, 1, 11), (2, 10, 1)]
    else:
        d = [(x, y, z) for x in (1, 2, 3) for y in (1, 2, 3) for z in (1, 2, 3)]
        big = [(11, 1, 2), (1, 12, 1), (2, 1, 11), (12, 2, 2), (2, 11, 3), (3, 2, 12), (5, 1, 1), (5, 2, 1), (10, 1, 1)]
    return [('grid', make(d, False)), ('many', make(big, False, variants=('plain', 'augmentation and moments', 'one per line'))),
            ('cell', make([(2, 1, 1)], True, variants=('plain',)))]
