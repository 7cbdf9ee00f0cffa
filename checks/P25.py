"""vasprun.xml: response tensors, dynamics, run parameters, version."""
from checks import vx
from checks.P17 import finish, start, step

BOUNDS = ('1 to 2 ions (thorough 3) and 11 ions for Born charges, 4 for the dynamical matrix, 1 to 3 and 7 energies, every value symbolic; any combination of dielectric functions (one or two), tensors '
          'and Born charges, next to tensors of other names, in one or both of two ionic steps; every run parameter, present or not; version texts with symbolic digits; '
          'regular and event parser')


def dynamics(maxn, many=None):
    def dynamics(h):
        """Hessian and dynamical matrix."""
        n = many or h.size('n', 1, maxn)
        event = h.choice('event', [False, True])
        steps = h.choice('steps', [1, 2])
        d = vx.Doc(h, ('hess', 'dyneig', 'dynvec'))
        start(h, d, 1, 1, ['Si', 'O', 'H', 'C'][:n], steps)
        with d.block(2, 'kpoints'):
            d.varray(3, 'kpointlist', 'otherk', 2, 3)
        with d.block(2, 'dynmat'):
            hes = d.varray(3, 'hessian', 'hess', 3 * n, 3 * n)
            ev = d.row(3, 'v', [d.num('dyneig') for _ in range(3 * n)], ' name="eigenvalues"')
            vec = d.varray(3, 'eigenvectors', 'dynvec', 3 * n, 3 * n)
        finish(d, n)
        r = vx.parse(h, d, event)
        h.check(r.ok, 'file is parsed')
        x = r.value
        h.eq(x.get_hessian(), hes, 'Hessian')
        h.eq(sorted(x.get_dynmat()), ['eigenvalues', 'eigenvectors'], 'entries of the dynamical matrix')
        h.eq(x.get_dynmat()['eigenvalues'], ev, 'eigenvalues of the dynamical matrix')
        h.eq(x.get_dynmat()['eigenvectors'], vec, 'eigenvectors of the dynamical matrix')
        h.eq(x.get_kpoints().shape, (1, 3), 'k-points of the run')
    return dynamics


def function(d, attr, npts):
    p = []
    with d.block(2, 'dielectricfunction', attr):
        for part in ('imag', 'real'):
            with d.block(3, part):
                with d.block(4, 'array'):
                    d.add('     <field>energy</field>')
                    with d.block(5, 'set'):
                        p.append(d.rows(6, 'r', part, npts, 7, 4, 10))
    return p


def response(maxn, many=None):
    def response(h):
        """Dielectric functions, tensors and Born charges."""
        n = many or h.size('n', 1, maxn)
        event = h.choice('event', [False, True])
        v = h.choice('v', ['two functions', 'born'] if many else ['function', 'two functions', 'tensors', 'epsilon', 'epsilon_ion', 'born', 'all'])
        npts = many or (h.choice('npts', [1, 2, 3, 7]) if 'function' in v else 2)
        d = vx.Doc(h, ('imag', 'real', 'epsilon', 'epsilon_ion', 'born'))
        start(h, d, 1, 1, (['Si', 'O', 'H'] * 4)[:n])
        f = eps = ion = born = None
        if 'function' in v or v == 'all':
            names = [' comment="density-density"', ' comment="current-current"'] if v == 'two functions' else ['']
            for a in names:
                p = function(d, a, npts)
                f = f or p
        if v in ('tensors', 'epsilon', 'all'):
            d.varray(2, 'epsilon_rpa', 'other', 3, 3)
            eps = d.varray(2, 'epsilon', 'epsilon', 3, 3)
        if v in ('born', 'all'):
            born = []
            with d.block(2, 'array', ' name="born_charges" '):
                d.add('   <dimension dim="1">ion</dimension>')
                for _ in range(n):
                    with d.block(3, 'set'):
                        born.append(d.rows(4, 'v', 'born', 3, 3))
        if v in ('tensors', 'epsilon_ion', 'all'):
            ion = d.varray(2, 'epsilon_ion', 'epsilon_ion', 3, 3)
        d.eigen(2, 'eig', 1, 1, 1)
        finish(d, n)
        r = vx.parse(h, d, event)
        h.check(r.ok, 'file is parsed')
        x = r.value
        got = x.get_dielectrics() or {}
        for k, want in [('imag', f and [w[1:] for w in f[0]]), ('real', f and [w[1:] for w in f[1]]),
                        ('energy', f and [w[0] for w in f[0]]), ('epsilon', eps), ('epsilon_ion', ion)]:
            if want is None:
                h.check(got.get(k) is None, f'no {k}')
            else:
                h.eq(got.get(k), want, k)
        if eps is not None:
            h.eq(x.get_epsilon(), eps, 'epsilon on its own')
        if ion is not None:
            h.eq(x.get_epsilon_ion(), ion, 'epsilon_ion on its own')
        if born is None:
            h.check(x.get_born() is None, 'no Born charges')
        else:
            h.eq(x.get_born(), born, 'Born charges')
        h.eq(x.get_eigenvalues()['total'].shape, (1, 1), 'eigenvalues')
    return response


def several(h):
    """The last of the ionic steps that have them counts."""
    event = h.choice('event', [False, True])
    where = h.choice('where', ['both', 'first', 'last'])
    nf = h.choice('functions', [0, 1, 2])
    d = vx.Doc(h, ('hess', 'dyneig', 'dynvec', 'epsilon', 'epsilon_ion', 'born', 'imag', 'real'))
    start(h, d, 1, 1, ['Si'], 1)
    for i in ('first', 'last'):
        if i == 'last':
            d.add(' </calculation>')
            d.add(' <calculation>')
            step(d, 1)
        if where not in ('both', i):
            continue
        f = [function(d, a, 2) for a in (' comment="density-density"', ' comment="current-current"')[:nf]]
        eps = d.varray(2, 'epsilon', 'epsilon', 3, 3)
        with d.block(2, 'dynmat'):
            hes = d.varray(3, 'hessian', 'hess', 3, 3)
            ev = d.row(3, 'v', [d.num('dyneig') for _ in range(3)], ' name="eigenvalues"')
            vec = d.varray(3, 'eigenvectors', 'dynvec', 3, 3)
        with d.block(2, 'array', ' name="born_charges" '):
            with d.block(3, 'set'):
                born = d.rows(4, 'v', 'born', 3, 3)
        ion = d.varray(2, 'epsilon_ion', 'epsilon_ion', 3, 3)
    finish(d, 1)
    r = vx.parse(h, d, event)
    h.check(r.ok, 'file is parsed')
    x = r.value
    h.eq(x.get_hessian(), hes, 'Hessian')
    h.eq(x.get_dynmat(), {'eigenvalues': ev, 'eigenvectors': vec}, 'dynamical matrix')
    h.eq([x.get_epsilon(), x.get_epsilon_ion()], [eps, ion], 'tensors')
    g = x.get_dielectrics()
    for k, want in [('imag', [w[1:] for w in f[0][0]]), ('real', [w[1:] for w in f[0][1]]), ('energy', [w[0] for w in f[0][0]])] if f else []:
        h.eq(g[k], want, k)
    h.eq(x.get_born(), [born], 'Born charges')


INTS = ['ISPIN', 'NBANDS', 'ISMEAR', 'NELM', 'NSW']
FLOATS = ['NELECT', 'SIGMA', 'SYMPREC']


def parameters(h):
    """Run parameters are those of the parameter section, whatever the input section says."""
    event = h.choice('event', [False, True])
    gone = h.choice('gone', ['', 'all'] + INTS + FLOATS + ['SYSTEM'])
    d = vx.Doc(h)
    d.head()
    d.kpoints(1)
    par = {k: h.inum(k, -9, 999999, 8) for k in INTS}
    par.update({k: h.num(k, 8, -9, 9999, 16) for k in FLOATS})
    par['SYSTEM'] = h.join('', [h.chars('s', 2, 'aB9'), h.choice('sys', [' x', '', ' = 5']), h.chars('t', 1, 'aB9')])
    for k in par:
        if gone in (k, 'all'):
            par[k] = None
    want = d.parameters(**par)
    d.atominfo(['Si'])
    with d.block(1, 'calculation'):
        d.scsteps(1)
        d.structure(2, 1)
        d.energies(2, 'final')
    d.end()
    r = vx.parse(h, d, event)
    h.check(r.ok, 'file is parsed')
    got = r.value.get_parameters()
    h.eq(sorted(got), sorted(want), 'parameter names')
    for k in want:
        h.eq(got[k], want[k], k)


def version(h):
    """The three numbers of the version."""
    event = h.choice('event', [False, True])
    a, b, c = (h.chars(n, h.size('w' + n, 1, 2), '0123456789') for n in 'abc')
    before = h.choice('before', ['', ' ', 'vasp.', None])
    after = h.choice('after', ['  ', '', '.36 ', ' (build)', '-gpu'])
    d = vx.Doc(h)
    d.head(None if before is None else h.join('', [before, a, '.', b, '.', c, after]))
    d.kpoints(1)
    d.parameters()
    d.atominfo(['Si'])
    d.end()
    r = vx.parse(h, d, event)
    h.check(r.ok, 'file is parsed')
    if before is None:
        h.check(r.value.get_version() is None, 'no version')
        return
    h.eq(r.value.get_version(), h.join('', [a, '.', b, '.', c]), 'version')


def unknown(h):
    """What is given for each ion can not be reported when the ions are not known."""
    event = h.choice('event', [False, True])
    what = h.choice('what', ['born', 'hessian', 'dynmat'])
    d = vx.Doc(h)
    start(h, d, 1, 1, None)
    if what == 'born':
        with d.block(2, 'array', ' name="born_charges" '):
            with d.block(3, 'set'):
                d.rows(4, 'v', 'born', 3, 3)
    else:
        with d.block(2, 'dynmat'):
            if what == 'dynmat':
                d.row(3, 'v', [d.num('dyneig') for _ in range(3)], ' name="eigenvalues"')
            d.varray(3, 'hessian' if what == 'hessian' else 'eigenvectors', 'hess', 3, 3)
    finish(d, 1)
    r = vx.parse(h, d, event)
    if event:
        h.check(r.kind == 'exit' and r.code == 501, 'ends in the documented exit code')
    else:
        h.check(r.ok, 'file is parsed')
        h.check(getattr(r.value, 'get_' + what)() is None, 'nothing is reported')


def harnesses(tier):
    m = 2 if tier == 'quick' else 3
    return [('dynamics', dynamics(m)), ('many dynamics', dynamics(0, 4)), ('response', response(m)), ('many response', response(0, 11)),
            ('several', several), ('unknown', unknown), ('parameters', parameters), ('version', version)]
