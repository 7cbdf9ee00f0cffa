"""vasprun.xml: unit cells, positions, species, forces and stress of every ionic step."""
from checks import vx

BOUNDS = ('1 to 4 ionic steps (thorough 6), 1 to 4 ions (thorough 7), 10 and 12 steps, 11, 14 and 26 ions; every coordinate symbolic; forces and stress present or not; '
          'velocities in the structures; regular and event parser; path and handler; extract_all on and off; every element')


def eqs(h, x, name, want, label):
    """want: step -> value, or None when nothing was written."""
    get = getattr(x, 'get_' + name)
    if want is None:
        return
    h.eq(get('initial'), want[1], label + ', first step')
    h.eq(get('last'), want[max(want)], label + ', last step')
    got = get('all')
    if max(want) == 1 and len(got) > 1:
        # the regular parser lists a single step twice, and the tests want it so
        want = {1: want[1], 2: want[1]}
    h.eq(got, want, label + ', all steps')


def document(h, n, steps, species, sym=('cell', 'pos', 'force', 'stress'), forces=True, stress=True, velocities=False):
    d = vx.Doc(h, sym)
    d.head()
    d.kpoints(1)
    d.parameters()
    z = d.atominfo(species)
    ini = d.structure(1, n, 'initialpos', 'ini')
    out = {'unitcell': {}, 'positions': {}, 'forces': {}, 'stress': {}}
    for s in range(1, steps + 1):
        with d.block(1, 'calculation'):
            d.scsteps(1)
            out['unitcell'][s], out['positions'][s] = d.structure(2, n, velocities=velocities)
            if forces:
                out['forces'][s] = d.varray(2, 'forces', 'force', n, 3)
            if stress:
                out['stress'][s] = d.varray(2, 'stress', 'stress', 3, 3)
            d.energies(2, 'final')
    fin = d.structure(1, n, 'finalpos', 'fin')
    d.end()
    return d, out, z, ini, fin


def steps(maxs, maxn):
    def steps(h):
        """Every step under its own number."""
        n = h.size('n', 1, maxn)
        ns = h.size('steps', 1, maxs)
        v = h.choice('v', ['', 'no forces', 'no stress', 'velocities'])
        event = h.choice('event', [False, True])
        how = h.choice('how', ['path', 'handler']) if v == '' else 'path'
        d, out, z, _, _ = document(h, n, ns, ['Si', 'H', 'O', 'Ga', 'As', 'H', 'C'][:n], forces=v != 'no forces', stress=v != 'no stress',
                                   velocities=v == 'velocities')
        r = vx.parse(h, d, event, how)
        h.check(r.ok, 'file is parsed')
        x = r.value
        eqs(h, x, 'unitcell', out['unitcell'], 'unit cell')
        eqs(h, x, 'positions', out['positions'], 'positions')
        if v != 'no forces':
            eqs(h, x, 'forces', out['forces'], 'forces')
        if v != 'no stress':
            eqs(h, x, 'stress', out['stress'], 'stress')
        h.eq(x.get_species(), z, 'species')
        l = x.get_lattice('last')
        h.eq([l['unitcell'], l['positions'], l['species']], [out['unitcell'][ns], out['positions'][ns], z], 'lattice')
        h.check(not x.truncated, 'not truncated')
    return steps


def many(h):
    """Many steps, or many ions."""
    ns, n = h.choice('size', [(10, 1), (12, 2), (2, 14), (3, 11), (1, 26)])
    event = h.choice('event', [False, True])
    d, out, z, _, _ = document(h, n, ns, (['Si', 'H', 'O', 'Ga', 'As', 'H', 'C'] * 4)[:n])
    r = vx.parse(h, d, event)
    h.check(r.ok, 'file is parsed')
    for k in out:
        eqs(h, r.value, k, out[k], k)
    h.eq(r.value.get_species(), z, 'species')
    l = r.value.get_lattice('last')
    h.eq([l['unitcell'], l['positions'], l['species']], [out['unitcell'][ns], out['positions'][ns], z], 'lattice')


def ends(h):
    """Without extract_all: the initial and final structures, the first and last forces and stress."""
    n = h.size('n', 1, 4)
    ns = h.size('steps', 1, 3)
    d, out, z, ini, fin = document(h, n, ns, ['Si'] * n, ('inicell', 'inipos', 'fincell', 'finpos', 'force', 'stress'))
    r = vx.parse(h, d, extract_all=False)
    h.check(r.ok, 'file is parsed')
    x = r.value
    h.eq([x.get_unitcell('initial'), x.get_positions('initial')], list(ini), 'initial structure')
    h.eq([x.get_unitcell('last'), x.get_positions('last')], list(fin), 'final structure')
    h.eq([x.get_forces('initial'), x.get_stress('initial')], [out['forces'][1], out['stress'][1]], 'first forces and stress')
    h.eq([x.get_forces('last'), x.get_stress('last')], [out['forces'][ns], out['stress'][ns]], 'last forces and stress')


def species(h):
    """Atomic numbers of the element symbols."""
    a = h.choice('a', vx.Z[:86] + ['Th', 'U'])
    event = h.choice('event', [False, True])
    b = h.choice('b', ['H', 'Si', 'Zz', ''])
    names = [a, 'O'] + ([b] if b else [])
    d, out, z, _, _ = document(h, len(names), 1, [x if x != 'Zz' else 'Y' for x in names], ())
    if b == 'Zz':
        d.L = [x.replace('<rc><c>Y ', '<rc><c>Zz') if i > 0 and a != 'Y' else x for i, x in enumerate(d.L)]
        if a == 'Y':
            return h.check(True, 'skipped')
    r = vx.parse(h, d, event)
    if b == 'Zz':
        h.check(r.kind == 'exit' and r.code == 506, 'unknown element ends in the documented exit code')
        return
    h.check(r.ok, 'file is parsed')
    h.eq(r.value.get_species(), z, 'atomic numbers')


def status(h):
    """Any other selection is refused."""
    s = h.choice('s', ['first', 'final', '', None, 'ALL', 1])
    g = h.choice('g', ['unitcell', 'positions', 'forces', 'stress', 'energies'])
    event = h.choice('event', [False, True])
    d, *_ = document(h, 1, 1, ['Si'], ())
    r = vx.parse(h, d, event)
    h.check(r.ok, 'file is parsed')
    q = h.run(lambda: getattr(r.value, 'get_' + g)(s))
    h.check(q.kind == 'exit' and q.code == 507, 'unknown selection ends in the documented exit code')


def harnesses(tier):
    return [('steps', steps(4, 4) if tier == 'quick' else steps(6, 7)), ('many', many), ('ends', ends), ('species', species), ('status', status)]
