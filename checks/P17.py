"""vasprun.xml: eigenvalues, occupancies, k-points, densities of states, projectors."""
from checks import vx

BOUNDS = ('1 or 2 spins, 1 to 3 k-points, 1 to 3 bands, 1 to 3 ions, 1 to 3 energies, 1 to 16 orbital columns, 11 or 12 of each next to 1 or 2 of the others; a second (interpolated) '
          'k-point set with its own eigenvalues, velocities and densities of states; 1 or 2 ionic steps, one or both with the sections; every value symbolic; both index '
          'orders; regular and event parser; ISPIN, NBANDS, k-points or species missing or contradicting the file')
SPINS = {1: ['total'], 2: ['up', 'down']}


def start(h, d, nk, nb, species=('Si', ), steps=1, div=None, **par):
    """Everything before the last calculation's results; returns k-points, weights, divisions."""
    d.head()
    if div is None:
        div = h.choice('div', [True, False]) if 'kpoints' in d.sym else True
    kp = d.kpoints(nk, div) if nk else None
    d.parameters(nbands=nb, **par)
    if species:
        d.atominfo(list(species))
    species = species or ('Si', )
    d.structure(1, len(species), 'initialpos', 'ini')
    for _ in range(steps - 1):
        with d.block(1, 'calculation'):
            step(d, len(species))
    d.add(' <calculation>')
    step(d, len(species))
    return kp


def step(d, n):
    d.scsteps(1)
    d.structure(2, n)
    d.varray(2, 'forces', 'force', n, 3)
    d.varray(2, 'stress', 'stress', 3, 3)
    d.energies(2, 'final')


def finish(d, n):
    d.add(' </calculation>')
    d.structure(1, n, 'finalpos', 'fin')
    d.end()


def table(vals, k_before_band, col=None):
    """[k][band][col] as reported."""
    t = [[b if col is None else b[col] for b in k] for k in vals]
    return t if k_before_band else [list(x) for x in zip(*t)]


def eigenvalues(h):
    """Eigenvalues, occupancies and the k-points they belong to."""
    ns = h.choice('ns', [1, 2])
    nk, nb = h.choice('n', [(i, j) for i in (1, 2, 3) for j in (1, 2, 3)] + [(11, 1), (1, 11), (12, 2), (2, 12)])
    cols = h.choice('cols', [1, 2])
    kb = h.choice('kb', [False, True])
    event = h.choice('event', [False, True])
    d = vx.Doc(h, ('eig', 'kpoints', 'kpointsw', 'kpointdiv'))
    k, w, div = start(h, d, nk, nb, ispin=ns)
    ev = d.eigen(2, 'eig', ns, nk, nb, cols)
    finish(d, 1)
    r = vx.parse(h, d, event, k_before_band=kb)
    h.check(r.ok, 'file is parsed')
    x = r.value
    h.eq(x.get_kpoints(), k, 'k-points')
    h.eq(x.get_kpointsw(), w, 'weights')
    h.eq(x.get_dict()['lattice']['kpointdiv'], div, 'divisions')
    e, o = x.get_eigenvalues(), x.get_occupancies()
    h.eq(sorted(e), sorted(SPINS[ns]), 'spin channels')
    for s, name in enumerate(SPINS[ns]):
        h.eq(e[name], table(ev[s], kb, 0), 'eigenvalues')
        if cols == 2:
            h.eq(o[name], table(ev[s], kb, 1), 'occupancies')
    if cols == 1:
        h.check(not o, 'no occupancies')


def specific(h):
    """Eigenvalues or velocities and densities of states on a second set of k-points next to those of the first."""
    what = h.choice('what', ['eigenvalues', 'eigenvelocities'])
    ns = h.choice('ns', [1, 2])
    nk, nb, nk2 = h.size('nk', 1, 2), h.size('nb', 1, 2), h.size('nk2', 1, 3)
    withdos = h.choice('dos', ['both', 'none', 'regular'])
    kb = h.choice('kb', [False, True])
    event = h.choice('event', [False, True])
    d = vx.Doc(h, ('eig', 'eig2', 'k2points', 'k2pointsw', 'dos', 'dos2', 'dosfermi', 'dos2fermi'))
    k, w, _ = start(h, d, nk, nb, ispin=ns)
    with d.block(2, what, ' comment="interpolated"'):
        with d.block(3, 'kpoints'):
            k2 = d.varray(4, 'kpointlist', 'k2points', nk2, 3)
            w2 = [y[0] for y in d.varray(4, 'weights', 'k2pointsw', nk2, 1)]
        ev2 = d.eigen(3, 'eig2', ns, nk2, nb, 2 if what == 'eigenvalues' else 4)
    if withdos == 'both':
        f2, t2, _ = d.dos('dos2', ns, 2, comment='interpolated')
    ev = d.eigen(2, 'eig', ns, nk, nb)
    if withdos != 'none':
        f, t, _ = d.dos('dos', ns, 3)
    finish(d, 1)
    r = vx.parse(h, d, event, k_before_band=kb)
    h.check(r.ok, 'file is parsed')
    x = r.value
    h.eq([x.get_kpoints(), x.get_kpointsw()], [k, w], 'k-points')
    h.eq([x.get_kpoints_specific(), x.get_kpointsw_specific()], [k2, w2], 'specific k-points')
    got = x.get_eigenvalues_specific() if what == 'eigenvalues' else x.get_eigenvelocities()
    h.eq(sorted(got), sorted(SPINS[ns]), 'spin channels')
    for s, name in enumerate(SPINS[ns]):
        h.eq(x.get_eigenvalues()[name], table(ev[s], kb, 0), 'eigenvalues')
        h.eq(x.get_occupancies()[name], table(ev[s], kb, 1), 'occupancies')
        h.eq(got[name], table(ev2[s], kb, 0 if what == 'eigenvalues' else None), what + ' of the specific k-points')
    if withdos == 'none':
        h.check(x.get_dos() is None, 'no densities')
    else:
        doseq(h, x.get_dos(), f, t, None, 'densities')
        h.eq(x.get_fermi_level(), f, 'Fermi level')
    if withdos == 'both':
        doseq(h, x.get_dos_specific(), f2, t2, None, 'specific densities')
        h.eq(x.get_fermi_level_specific(), f2, 'specific Fermi level')
    else:
        h.check(x.get_dos_specific() is None, 'no specific densities')


def doseq(h, got, fermi, tot, par, label):
    ns = len(tot)
    h.eq(sorted(got), ['total'] if ns == 1 else ['down', 'total', 'up'], label + ': spin channels')
    h.eq(got['total']['fermi_level'], fermi, label + ': Fermi level')
    h.eq(got['total']['energy'], [r[0] for r in tot[0]], label + ': energies')
    for s, name in enumerate(SPINS[ns]):
        h.eq(got[name]['total'], [r[1] for r in tot[s]], label + ': total')
        h.eq(got[name]['integrated'], [r[2] for r in tot[s]], label + ': integrated')
        if par is None:
            h.check(got[name]['partial'] is None, label + ': no partial densities')
        else:
            h.eq(got[name]['partial'], [[r[1:] for r in ion] for ion in par[s]], label + ': partial densities')


def dos(maxn, many=None):
    def dos(h):
        """Total and partial densities of states."""
        ns = h.choice('ns', [1, 2])
        n, npts = h.choice('n', many) if many else (h.size('n', 1, maxn), h.size('npts', 1, maxn))
        cols = h.choice('cols', [3, 0] if many else [9, 0, 3, 4, 16, 1])
        fermi = h.choice('fermi', [True, False]) if cols == 0 else True
        event = h.choice('event', [False, True])
        steps = 2 if cols == 0 else 1
        d = vx.Doc(h, ('dos', 'dosp', 'dosfermi'))
        start(h, d, 1, 1, (['Si', 'H', 'O', 'C', 'N'] * 3)[:n], steps, ispin=ns)
        d.eigen(2, 'eig', ns, 1, 1)
        f, t, p = d.dos('dos', ns, npts, n if cols else 0, cols, fermi=fermi)
        finish(d, n)
        r = vx.parse(h, d, event)
        h.check(r.ok, 'file is parsed')
        doseq(h, r.value.get_dos(), f, t, p, 'densities')
        h.check(r.value.get_dos_specific() is None, 'no specific densities')
    return dos


def projectors(maxn, many=None):
    def projectors(h):
        """Projections of the states on the orbitals of each ion."""
        ns = h.choice('ns', [1, 2])
        if many:
            nk, nb, n = h.choice('n', many)
            cols = 3
        else:
            nk, nb, n = h.size('nk', 1, maxn), h.size('nb', 1, maxn), h.size('n', 1, maxn)
            cols = h.choice('cols', [9, 3, 4, 16]) if nk + nb + n < 6 else 9
        kb = h.choice('kb', [False, True])
        event = h.choice('event', [False, True])
        d = vx.Doc(h, ('proj', ))
        start(h, d, nk, nb, (['Si', 'H', 'O', 'C'] * 3)[:n], ispin=ns)
        d.eigen(2, 'eig', ns, nk, nb)
        p = d.projected(ns, nk, nb, n, cols)
        finish(d, n)
        r = vx.parse(h, d, event, k_before_band=kb)
        h.check(r.ok, 'file is parsed')
        got = r.value.get_projectors()
        h.eq(sorted(got), sorted(SPINS[ns]), 'spin channels')
        for s, name in enumerate(SPINS[ns]):
            want = [table([[p[s][k][b][a] for b in range(nb)] for k in range(nk)], kb) for a in range(n)]
            h.eq(got[name], want, 'projectors')
    return projectors


def several(h):
    """The last of the ionic steps that have them counts."""
    what = h.choice('what', ['eigenvalues', 'dos', 'projectors', 'specific'])
    where = h.choice('where', ['both', 'first', 'last'])
    ns = h.choice('ns', [1, 2])
    kb = h.choice('kb', [False, True])
    event = h.choice('event', [False, True])
    d = vx.Doc(h, ('eig', 'dos', 'dosp', 'dosfermi', 'proj', 'eig2', 'k2points'))
    start(h, d, 1, 2, ['Si'], 1, ispin=ns)
    got = None
    for i in ('first', 'last'):
        if i == 'last':
            d.add(' </calculation>')
            d.add(' <calculation>')
            step(d, 1)
        if where not in ('both', i):
            continue
        if what == 'specific':
            with d.block(2, 'eigenvalues', ' comment="interpolated"'):
                with d.block(3, 'kpoints'):
                    k2 = d.varray(4, 'kpointlist', 'k2points', 2, 3)
                    d.varray(4, 'weights', 'k2pointsw', 2, 1)
                got = k2, d.eigen(3, 'eig2', ns, 2, 2, 2)
        if what in ('eigenvalues', 'specific'):
            ev = d.eigen(2, 'eig', ns, 1, 2)
        if what == 'dos':
            got = d.dos('dos', ns, 1, 1, 3)
        if what == 'projectors':
            got = d.projected(ns, 1, 2, 1, 3)
    finish(d, 1)
    r = vx.parse(h, d, event, k_before_band=kb)
    h.check(r.ok, 'file is parsed')
    x = r.value
    if what == 'dos':
        doseq(h, x.get_dos(), *got, 'densities')
        return
    for s, name in enumerate(SPINS[ns]):
        if what == 'projectors':
            h.eq(x.get_projectors()[name], [table([[got[s][0][b][0] for b in range(2)]], kb)], 'projectors')
        else:
            h.eq(x.get_eigenvalues()[name], table(ev[s], kb, 0), 'eigenvalues')
            h.eq(x.get_occupancies()[name], table(ev[s], kb, 1), 'occupancies')
        if what == 'specific':
            h.eq(x.get_kpoints_specific(), got[0], 'specific k-points')
            h.eq(x.get_eigenvalues_specific()[name], table(got[1][s], kb, 0), 'specific eigenvalues')


def mismatch(h):
    """Counts that contradict the header, and missing headers."""
    what = h.choice('what', ['bands', 'ISPIN', 'NBANDS', 'second spin', 'kpoints', 'species', 'specific', 'velocities', 'projected bands',
                             'projected kpoints'])
    nk, nb = h.size('nk', 1, 2), h.size('nb', 1, 2)
    event = h.choice('event', [False, True])
    par = {what: None} if what in ('ISPIN', 'NBANDS') else {}
    d = vx.Doc(h)
    start(h, d, None if 'kpoints' in what else nk, nb + (what == 'bands'), None if what == 'species' else ('Si', ), ispin=2 if what == 'second spin' else 1, **par)
    if what == 'second spin':
        with d.block(2, 'eigenvalues'):
            with d.block(3, 'array'):
                with d.block(4, 'set'):
                    for s in (1, 2):
                        with d.block(5, 'set', f' comment="spin {s}"'):
                            for k in range(nk):
                                with d.block(6, 'set', f' comment="kpoint {k + 1}"'):
                                    d.rows(7, 'r', 'eig', nb + (s == 2 and k == nk - 1), 2, 4, 10)
    elif what == 'specific':
        with d.block(2, 'eigenvalues', ' comment="interpolated"'):
            d.eigen(3, 'eig2', 1, nk, nb)
    elif what == 'velocities':
        with d.block(2, 'eigenvelocities'):
            d.eigen(3, 'eig2', 1, nk, nb, 4)
    elif what in ('species', 'projected bands', 'projected kpoints'):
        d.projected(1, nk, nb + (what == 'projected bands'), 1, 3)
    else:
        d.eigen(2, 'eig', 1, nk, nb)
    finish(d, 1)
    r = vx.parse(h, d, event)
    want = {'ISPIN': 502, 'NBANDS': 503, 'kpoints': 504, 'specific': 504, 'velocities': 504, 'projected kpoints': 504, 'species': 501}.get(what, 505)
    h.check(r.kind == 'exit' and r.code == want, 'ends in the documented exit code')


def absent(h):
    """Nothing is reported for sections the file does not have."""
    event = h.choice('event', [False, True])
    d = vx.Doc(h)
    start(h, d, 2, 2)
    finish(d, 1)
    r = vx.parse(h, d, event)
    h.check(r.ok, 'file is parsed')
    x = r.value
    for g in ('eigenvalues', 'eigenvalues_specific', 'eigenvelocities', 'occupancies', 'dos', 'dos_specific', 'projectors',
              'kpoints_specific', 'kpointsw_specific', 'hessian', 'dynmat', 'born', 'epsilon', 'epsilon_ion', 'fermi_level', 'fermi_level_specific'):
        h.check(getattr(x, 'get_' + g)() is None, 'nothing is reported')


def harnesses(tier):
    t = tier != 'quick'
    return [('eigenvalues', eigenvalues), ('specific', specific), ('dos', dos(3 if t else 2)), ('projectors', projectors(3 if t else 2)),
            ('many densities', dos(0, [(11, 1), (1, 12), (2, 11)])), ('many projectors', projectors(0, [(11, 1, 1), (1, 12, 1), (1, 2, 11)])),
            ('several', several), ('mismatch', mismatch), ('absent', absent)]
