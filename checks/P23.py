"""Coordinate and lattice transforms: direct/cartesian conversions are the row-vector map and its inverse; the
reciprocal lattice is dual to the lattice with the factor 2 pi."""
import math

BOUNDS = ('all nine lattice components and three coordinates symbolic, non-degenerate cells of either handedness; single '
          'vectors and arrays of 1-3 vectors; components within [-9, 9] on the 1e-4 grid; six given cells with coordinates within '
          '[-900, 900] on the 1e-8 grid')


def cell(h):
    return [[h.real(f'a{i}{j}', 4, -9, 9) for j in range(3)] for i in range(3)]


def det(a):
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def np_of(h):
    if h.symbolic:
        from symex import arr
        return arr.NP
    import numpy
    return numpy


def wide(h, a):
    """A well-conditioned cell, so that the concrete companion run is not dominated by rounding."""
    h.apart(det(a))


# general ones of either handedness, a large and a small one, a rotated one with few numbers, a long one
FIXED = [[[1.5, 0.25, -0.5], [0.0, 2.0, 0.75], [0.125, -1.0, 3.0]], [[0.5, 2.0, 0.0], [1.25, -0.75, 1.0], [0.25, 0.0, 2.5]],
         [[500.0, 0.0, 0.0], [0.0, 250.0, 0.0], [-125.0, 0.0, 400.0]], [[0.0625, 0.0, 0.0], [0.0, 0.0, 0.125], [0.0, -0.25, 0.0]],
         [[0.0, 2.5, 2.5], [2.5, 0.0, 2.5], [2.5, 2.5, 0.0]], [[2.0, 0.0, 0.0], [0.0, 4.0, 0.0], [0.0, 0.0, 50.0]]]


def fixed(h):
    """Given cells, coordinates of any magnitude."""
    np = np_of(h)
    U = h.mod('utils')
    a = h.choice('cell', FIXED)
    n = h.choice('form', [None, 2])
    x = [[h.real(f'x{i}{j}', 8, -900, 900) for j in range(3)] for i in range(n or 1)]
    rows = x if n else x[0]
    A = np.array(a)
    r = h.run(lambda: U.cart_to_dir(np.array(rows), A))
    h.check(r.ok, 'conversion to direct succeeds')
    d = r.value if n else [r.value]
    for i in range(n or 1):
        h.eq([sum(d[i][k] * a[k][j] for k in range(3)) for j in range(3)], x[i], 'the direct coordinates combine to the vector',
             None if h.symbolic else 1e-9)
    r = h.run(lambda: U.dir_to_cart(np.array(rows), A))
    h.check(r.ok, 'conversion succeeds')
    d = r.value if n else [r.value]
    for i in range(n or 1):
        h.eq(d[i], [sum(x[i][k] * a[k][j] for k in range(3)) for j in range(3)], 'cartesian is the combination of the lattice rows',
             None if h.symbolic else 1e-9)
    q = h.run(lambda: U.lat_to_reclat(A))
    h.check(q.ok, 'reciprocal lattice computed')
    h.eq([[sum(q.value[j][k] * a[i][k] for k in range(3)) / (2 * math.pi) for j in range(3)] for i in range(3)],
         [[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)], 'reciprocal vectors are dual to the lattice with the factor 2 pi',
         None if h.symbolic else 1e-9)


def har(h):
    np = np_of(h)
    U = h.mod('utils')
    a = cell(h)
    n = h.choice('form', [None, 1, 2, 3])
    form = 'rows' if n else 'vector'
    x = [[h.real(f'x{i}{j}', 4, -9, 9) for j in range(3)] for i in range(n or 1)]
    rows = x if n else x[0]
    A = np.array(a)
    r = h.run(lambda: U.dir_to_cart(np.array(rows), A))
    h.check(r.ok, 'conversion succeeds')

    def img(v):
        return [v[0] * a[0][j] + v[1] * a[1][j] + v[2] * a[2][j] for j in range(3)]
    exp = [img(v) for v in x] if n else img(rows)
    h.eq(r.value, exp, 'cartesian is the combination of the lattice rows', None if h.symbolic else 1e-7)
    wide(h, a)
    back = h.run(lambda: U.cart_to_dir(r.value, A))
    h.check(back.ok, 'inverse conversion succeeds')
    h.eq(back.value, rows, 'cart_to_dir undoes dir_to_cart', None if h.symbolic else 1e-5)
    dd = h.run(lambda: U.cart_to_dir(np.array(rows), A))
    h.check(dd.ok, 'conversion to direct succeeds')
    again = h.run(lambda: U.dir_to_cart(dd.value, A))
    h.eq(again.value, rows, 'dir_to_cart undoes cart_to_dir', None if h.symbolic else 1e-5)


def reciprocal(h):
    np = np_of(h)
    U = h.mod('utils')
    a = cell(h)
    wide(h, a)
    r = h.run(lambda: U.lat_to_reclat(np.array(a)))
    h.check(r.ok, 'reciprocal lattice computed')
    b = r.value
    got = [[sum(b[j][k] * a[i][k] for k in range(3)) / (2 * math.pi) for j in range(3)] for i in range(3)]
    h.eq(got, [[1.0 if i == j else 0.0 for j in range(3)] for i in range(3)],
         'reciprocal vectors are dual to the lattice with the factor 2 pi', None if h.symbolic else 1e-6)


def harnesses(tier):
    return [('fixed', fixed), ('convert', har), ('reciprocal', reciprocal)]
