"""vasprun.xml: total energies per ionic and electronic step."""
from itertools import permutations

from checks import vx

BOUNDS = ('1 to 3 ionic steps (thorough 4) with 1 to 3 electronic steps each, in every combination, 10 and 12 ionic and 11 to 13 electronic steps, every energy symbolic; every selection '
          'and order of energy types, with and without electronic steps; regular and event parser')
NAMES = [n for _, n in vx.ENERGIES]
TYPES = [list(p) for k in (1, 2, 3) for p in permutations(NAMES, k)]


def document(h, counts, order=None, extra=False, sym=('sc', 'final')):
    """One calculation per count; returns the document and the energies of each step."""
    d = vx.Doc(h, sym)
    d.head()
    d.kpoints(1)
    d.parameters()
    d.atominfo(['Si'])
    d.structure(1, 1, 'initialpos', 'ini')
    out = []
    for n in counts:
        with d.block(1, 'calculation'):
            sc = d.scsteps(n)
            d.structure(2, 1)
            d.varray(2, 'forces', 'force', 1, 3)
            out.append((sc, d.energies(2, 'final', order or vx.ENERGIES, more=extra)))
            d.add('  <time name="totalsc">  11.23  12.34</time>')
    d.structure(1, 1, 'finalpos', 'fin')
    d.end()
    return d, out


def expected(out, status, etype, nosc):
    if status == 'initial':
        out = out[:1]
    elif status == 'last':
        out = out[-1:]
    w = {}
    for t in etype:
        w[t + '_final'] = [f[t] for _, f in out]
        w[t] = [s[t][-1] for s, _ in out] if nosc else [v for s, _ in out for v in s[t]]
    w['electronic_steps'] = [1 if nosc else len(s[NAMES[0]]) for s, _ in out]
    return w


def compare(h, x, out, status, etype, nosc, label=''):
    got = x.get_energies(status, etype, nosc) if etype is not None else x.get_energies(status, nosc=nosc)
    want = expected(out, status, etype or ['energy_extrapolated'], nosc)
    h.eq(sorted(got), sorted(want), label + 'entries')
    for k in want:
        h.eq(got[k], want[k], f'{label}{k} of {status} step{"" if nosc else " with electronic steps"}')


def steps(maxs):
    def steps(h):
        """Uneven numbers of electronic steps."""
        ns = h.size('steps', 1, maxs)
        counts = [h.size(f'nsc{i}', 1, 3) for i in range(ns)]
        event = h.choice('event', [False, True])
        d, out = document(h, counts)
        r = vx.parse(h, d, event)
        h.check(r.ok, 'file is parsed')
        for status in ('initial', 'last', 'all'):
            for nosc in (True, False):
                compare(h, r.value, out, status, None, nosc)
                compare(h, r.value, out, status, NAMES, nosc)
    return steps


def many(h):
    """More than nine of either kind of step."""
    counts = h.choice('counts', [[1] * 10, [1, 2] * 6, [12, 1], [11], [1, 13, 2]])
    event = h.choice('event', [False, True])
    d, out = document(h, counts)
    r = vx.parse(h, d, event)
    h.check(r.ok, 'file is parsed')
    for status in ('initial', 'last', 'all'):
        for nosc in (True, False):
            compare(h, r.value, out, status, NAMES, nosc)


def types(h):
    """Any selection of energy types, whatever the order in the file."""
    e = h.choice('etype', TYPES)
    order = h.choice('order', [list(p) for p in permutations(vx.ENERGIES)])
    d, out = document(h, [2, 1], order, extra=True)
    event = h.choice('event', [False, True])
    r = vx.parse(h, d, event)
    h.check(r.ok, 'file is parsed')
    for status in ('initial', 'last', 'all'):
        compare(h, r.value, out, status, e, False)
        compare(h, r.value, out, status, e, True)


def refused(h):
    """Unknown types."""
    e = h.choice('etype', [['energy_total'], ['energy_free', 'e_0_energy'], 'energy_free', ('energy_free', ), [None]])
    d, out = document(h, [1], sym=())
    r = vx.parse(h, d, h.choice('event', [False, True]))
    h.check(r.ok, 'file is parsed')
    q = h.run(lambda: r.value.get_energies('all', e))
    h.check(q.kind == 'exc' and q.exc == 'ValueError', 'unknown energy type is refused')


def harnesses(tier):
    return [('steps', steps(3 if tier == 'quick' else 4)), ('many', many), ('types', types), ('refused', refused)]
