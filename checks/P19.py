"""vasprun.xml: both parsers agree, and chunk ends do not matter."""
from checks import vx
from checks.P17 import finish, start, step

BOUNDS = ('documents made of every section the parsers know, 1 or 2 spins, 1 to 2 ions, k-points, bands and energies, 1 to 3 ionic steps, 11 or 12 of one of these next to 1 or 2 of the others, '
          'sections missing one at a time or given in both of two ionic steps, every value symbolic; every chunk end at, inside and between tags and between numbers of four '
          'such documents (inside numbers for parameters and energies), read by path and by handler')


def normal(x, steps):
    """What the getters report, without the differences both parsers are allowed."""
    d = {'parameters': x.get_parameters(), 'version': x.get_version()}
    for g in ('species', 'kpoints', 'kpointsw', 'eigenvalues', 'eigenvalues_specific', 'eigenvelocities', 'kpoints_specific',
              'kpointsw_specific', 'occupancies', 'dos', 'dos_specific', 'projectors', 'hessian', 'dynmat', 'born',
              'epsilon', 'epsilon_ion', 'fermi_level', 'fermi_level_specific'):
        d[g] = getattr(x, 'get_' + g)()
    d['divisions'] = x.get_dict()['lattice']['kpointdiv']
    d['dielectrics'] = {k: v for k, v in (x.get_dielectrics() or {}).items() if v is not None}
    for g in ('unitcell', 'positions', 'forces', 'stress'):
        f = getattr(x, 'get_' + g)
        a = f('all')
        if a is not None:
            a = {k: v for k, v in a.items() if v is not None and k <= steps}
        d[g] = a or None
        d[g + ' initial'], d[g + ' last'] = f('initial'), f('last')
    for status in ('initial', 'last', 'all'):
        for nosc in (True, False):
            d[f'energies {status} {nosc}'] = x.get_energies(status, ['energy_free', 'energy_extrapolated', 'energy_no_entropy'], nosc)
    return d


def same(h, got, want, steps):
    got, want = normal(got, steps), normal(want, steps)
    h.eqs(got, want, 'what both parsers report')


ALL = ['eigenvalues', 'dos', 'projected', 'specific', 'velocities', 'dynmat', 'functions', 'tensors', 'born']
SYM = ('cell', 'pos', 'force', 'stress', 'sc', 'final', 'kpoints', 'kpointsw', 'kpointdiv', 'eig', 'dos', 'dosp', 'dosfermi', 'eig2', 'dos2',
       'dos2fermi', 'k2points', 'k2pointsw', 'proj', 'hess', 'dyneig', 'dynvec', 'imag', 'real', 'epsilon', 'epsilon_ion', 'born')


def sections(d, what, ns, nk, nb, n, npts=1, cols=3):
    if 'tensors' in what:
        with d.part('epsilon'):
            d.varray(2, 'epsilon', 'epsilon', 3, 3)
    if 'dynmat' in what:
        with d.part('dynmat'), d.block(2, 'dynmat'):
            with d.part('hessian'):
                d.varray(3, 'hessian', 'hess', 3 * n, 3 * n)
            d.row(3, 'v', [d.num('dyneig') for _ in range(3 * n)], ' name="eigenvalues"')
            d.varray(3, 'eigenvectors', 'dynvec', 3 * n, 3 * n)
    if 'born' in what:
        with d.part('born'), d.block(2, 'array', ' name="born_charges" '):
            for _ in range(n):
                with d.block(3, 'set'):
                    d.rows(4, 'v', 'born', 3, 3)
    if 'tensors' in what:
        with d.part('epsilon_ion'):
            d.varray(2, 'epsilon_ion', 'epsilon_ion', 3, 3)
    for s, tag, cols2 in (('specific', 'eigenvalues', 2), ('velocities', 'eigenvelocities', 4)):
        if s in what:
            with d.part(s), d.block(2, tag, ' comment="interpolated"'):
                with d.part('interpolated'), d.block(3, 'kpoints'):
                    d.varray(4, 'kpointlist', 'k2points', 2, 3)
                    d.varray(4, 'weights', 'k2pointsw', 2, 1)
                d.eigen(3, 'eig2', ns, 2, nb, cols2)
    if 'dos2' in what or 'dos' in what and ('specific' in what or 'velocities' in what):
        with d.part('dos2'):
            d.dos('dos2', ns, 1, comment='interpolated')
    if 'eigenvalues' in what:
        with d.part('eigenvalues'):
            d.eigen(2, 'eig', ns, nk, nb)
    if 'functions' in what:
        with d.part('functions'), d.block(2, 'dielectricfunction'):
            for part in ('imag', 'real'):
                with d.block(3, part):
                    with d.block(4, 'array'):
                        with d.block(5, 'set'):
                            d.rows(6, 'r', part, npts, 7, 4, 10)
    if 'dos' in what:
        with d.part('dos'):
            d.dos('dos', ns, npts, n if 'partial' in what else 0, cols)
    if 'projected' in what:
        with d.part('projected'), d.block(2, 'projected'):
            # the eigenvalues once more
            flat = [''.join(q for q in p if isinstance(q, str)) for p in d.P]
            at = max(i for i, t in enumerate(flat) if t == '  <eigenvalues>')
            for p in d.P[at:flat.index('  </eigenvalues>', at) + 1]:
                d.add(' ', *p)
            proj(d, ns, nk, nb, n, cols)


def proj(d, ns, nk, nb, n, cols):
    with d.block(3, 'array'):
        with d.block(4, 'set'):
            for s in range(ns):
                with d.block(5, 'set', f' comment="spin{s + 1}"'):
                    for k in range(nk):
                        with d.block(6, 'set', f' comment="kpoint {k + 1}"'):
                            for b in range(nb):
                                with d.block(7, 'set', f' comment="band {b + 1}"'):
                                    d.rows(8, 'r', 'proj', n, cols, 4, 8, lo=-9, hi=99)


MIX = [['eigenvalues'], ['eigenvalues', 'dos'], ['eigenvalues', 'dos', 'partial'], ['eigenvalues', 'dos', 'partial', 'projected'],
       ['eigenvalues', 'projected'], ['specific', 'eigenvalues', 'dos'], ['velocities', 'eigenvalues', 'dos'], ['specific', 'eigenvalues'],
       ['specific', 'velocities', 'eigenvalues', 'dos', 'partial', 'projected'], ['dynmat', 'eigenvalues'], ['dynmat'], ['functions'],
       ['functions', 'tensors'], ['tensors'], ['born'], ['tensors', 'born', 'dynmat', 'eigenvalues', 'dos'], ['dos'], ['dos', 'partial'],
       ['dos2'], ['dos2', 'eigenvalues'], ALL + ['partial'], []]


def agree(maxn):
    def agree(h):
        """Every mixture of sections."""
        what = h.choice('what', MIX)
        ns = h.choice('ns', [1, 2])
        m = h.size('m', 1, maxn)
        steps = h.choice('steps', [1, 2, 3])
        kb = h.choice('kb', [False, True])
        d = vx.Doc(h, SYM)
        start(h, d, m, 2, ['Si', 'O', 'H'][:m], steps, ispin=ns)
        sections(d, what, ns, m, 2, m, m, 9 if m > 1 else 3)
        finish(d, m)
        a = vx.parse(h, d, False, k_before_band=kb)
        b = vx.parse(h, d, True, k_before_band=kb)
        h.check(a.ok and b.ok, 'file is parsed both ways')
        same(h, b.value, a.value, steps)
    return agree


def many(h):
    """More than nine of one thing next to one or two of the others."""
    ns, nk, nb, n, npts, steps = h.choice('size', [(1, 11, 1, 1, 1, 1), (2, 1, 12, 2, 1, 1), (1, 2, 1, 11, 2, 1), (2, 1, 1, 1, 12, 1), (1, 1, 1, 1, 1, 12)])
    what = h.choice('what', [['eigenvalues', 'dos', 'partial', 'projected'], ['specific', 'eigenvalues', 'dos'], ['born', 'tensors', 'functions'], ['velocities']])
    kb = h.choice('kb', [False, True])
    d = vx.Doc(h, SYM)
    start(h, d, nk, nb, (['Si', 'O', 'H'] * 4)[:n], steps, ispin=ns)
    sections(d, what, ns, nk, nb, n, npts, 3)
    finish(d, n)
    a = vx.parse(h, d, False, k_before_band=kb)
    b = vx.parse(h, d, True, k_before_band=kb)
    h.check(a.ok and b.ok, 'file is parsed both ways')
    same(h, b.value, a.value, steps)


def repeated(h):
    """Sections in more than one ionic step."""
    one, two = h.choice('what', [(w, w) for w in MIX if w] + [(['eigenvalues', 'dos', 'partial', 'projected'], ['eigenvalues', 'dos']),
                                                             (['dynmat', 'born', 'tensors', 'functions'], []), (['eigenvalues', 'dos'], []),
                                                             ([], ['eigenvalues', 'dos', 'partial'])])
    ns = h.choice('ns', [1, 2])
    kb = h.choice('kb', [False, True])
    d = vx.Doc(h, SYM)
    start(h, d, 1, 2, ['Si'], 1, True, ispin=ns)
    sections(d, one, ns, 1, 2, 1, 1, 3)
    d.add(' </calculation>')
    d.add(' <calculation>')
    step(d, 1)
    sections(d, two, ns, 1, 2, 1, 1, 3)
    finish(d, 1)
    a = vx.parse(h, d, False, k_before_band=kb)
    b = vx.parse(h, d, True, k_before_band=kb)
    h.check(a.kind == b.kind, 'file is parsed both ways')
    if a.ok and b.ok:
        same(h, b.value, a.value, 2)


def lacking(h):
    """Sections and entries missing from the file."""
    gone = h.choice('gone', ['generation', 'species', 'parameters', 'NBANDS', 'SIGMA', 'SYSTEM', 'NELM', 'calculation', 'structure', 'forces',
                             'stress', 'scstep', 'kpoints', 'energy'])
    steps = h.choice('steps', [1, 2])
    d = vx.Doc(h, SYM)
    d.head()
    if gone != 'kpoints':
        d.kpoints(2, gone != 'generation')
    if gone != 'parameters':
        d.parameters(**({gone: None} if gone.isupper() else {}))
    if gone != 'species':
        d.atominfo(['Si', 'O'])
    if gone != 'calculation':
        for _ in range(steps):
            with d.block(1, 'calculation'):
                if gone not in ('scstep', 'energy'):
                    d.scsteps(2)
                if gone != 'structure':
                    d.structure(2, 2)
                if gone not in ('forces', 'structure'):
                    d.varray(2, 'forces', 'force', 2, 3)
                if gone not in ('stress', 'structure'):
                    d.varray(2, 'stress', 'stress', 3, 3)
                if gone not in ('scstep', 'energy'):
                    d.energies(2, 'final')
    d.end()
    a, b = vx.parse(h, d, False), vx.parse(h, d, True)
    h.check(a.ok and b.ok, 'file is parsed both ways')
    if gone == 'species':
        # without the species the regular parser does not know how many ions there are
        return
    same(h, b.value, a.value, steps)


DOCS = {'run': [], 'spin': ['eigenvalues', 'dos', 'partial', 'projected'], 'response': ['dynmat', 'born', 'tensors', 'functions', 'dos'],
        'specific': ['specific', 'eigenvalues', 'dos', 'velocities']}


def cuts(name, both):
    def cuts(h):
        """Every chunk end."""
        d = vx.Doc(h, SYM)
        ns = 2 if name == 'spin' else 1
        start(h, d, 1, 1, ['Si'], 2 if name == 'run' else 1, True, ispin=ns)
        first = 0 if name == 'run' else len(d.P)
        sections(d, DOCS[name], ns, 1, 1, 1)
        finish(d, 1)
        points = d.cuts(first)
        k = h.choice('cut', list(range(len(points))))
        c = points[k]
        # in the quick run the two sources take turns
        how = h.choice('how', ['path', 'handler']) if both else ('path', 'handler')[k % 2]
        a = vx.parse(h, d)
        b = vx.parse(h, d, True, how, d.prefix(c))
        h.check(a.ok and b.ok, 'file is parsed both ways')
        same(h, b.value, a.value, 2 if name == 'run' else 1)
    cuts.__name__ = 'cuts_' + name
    return cuts


def harnesses(tier):
    return [('agree', agree(2 if tier == 'quick' else 3)), ('many', many), ('repeated', repeated), ('lacking', lacking)] + [('cuts_' + n, cuts(n, tier != 'quick')) for n in DOCS]
