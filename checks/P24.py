"""A truncated vasprun.xml is noticed, and what was complete in it is reported."""
from checks import vx
from checks.P17 import SPINS, step, table
from checks.P19 import SYM, sections

BOUNDS = ('files of 2-3 (quick) / 1-3 ionic steps with 1-2 atoms and 1-3 electronic steps per step (quick: one atom where numbers are symbolic, all steps kept where they are cut), and of one step with each group of '
          'result sections, sizes 1 (quick) / 1-2; cut anywhere from the first ionic step on: at the ends and inside of every tag and between '
          'numbers (numbers symbolic), and inside of numbers (numbers concrete); all steps or first and last kept; path and handler; '
          'the flag for complete files of three lengths with eight kinds of line ends and remarks at the end, and cut anywhere')
BUDGET = {'quick': 600}
ASSUMPTIONS = ['libxml2 recovering from a cut file is modelled by a recovering parser compared with lxml on every path',
               'only the regular parser is claimed; event parsing of a truncated file raises an XML syntax error']
NAMES = ('free', 'no_entropy', 'extrapolated')
TAILS = ['', '\n', '\n\n', ' \n', '\r\n', '\n \n\n', '\n' * 200, '\n<!-- ' + 'archived ' * 40 + '-->\n']


def flag(sizes):
    def flag(h):
        """The flag, for short and long files."""
        d = vx.Doc(h, ('kpoints', ))
        d.head()
        size = h.choice('size', sizes)
        if size:
            d.kpoints(size)
        d.end()
        whole = h.choice('whole', [True, False])
        how = h.choice('how', ['path', 'handler'])
        if whole:
            text = h.join('', [h.lines(d.L[:-1]), d.L[-1], h.choice('tail', TAILS)])
        else:
            text = d.prefix(h.choice('cut', [(i, j, k) for i, j, k in d.cuts(3) if i < len(d.P) - 1] +
                                     [(len(d.P) - 1, 0, k) for k in range(len('</modeling>'))]))
        o = vx.parse(h, text, False, how)
        h.check(o.ok, 'file is parsed')
        h.check(o.value.truncated is (not whole), 'only a file without its end is reported as truncated')
    return flag


def steps(n_hi, sym, both):
    def steps(h):
        """A run that was cut."""
        n = h.choice('steps', n_hi)
        m = h.choice('m', [1, 2] if both or not sym else [1])
        every = h.choice('every', [True, False] if both or sym else [True])
        d = vx.Doc(h, SYM if sym else ())
        d.head()
        k, w, div = d.kpoints(1)
        par = d.parameters()
        sp = d.atominfo(['Si', 'O'][:m])
        ini = d.structure(1, m, 'initialpos', 'ini')
        first = len(d.P)
        want = {'unitcell': {}, 'positions': {}, 'forces': {}, 'stress': {}, 'energies': {}}
        for s in range(1, n + 1):
            with d.block(1, 'calculation'):
                sc = d.scsteps(s)
                want['unitcell'][s], want['positions'][s] = d.structure(2, m)
                d.done['unitcell', s] = d.done['positions', s] = len(d.P)
                want['forces'][s] = d.varray(2, 'forces', 'force', m, 3)
                d.done['forces', s] = len(d.P)
                want['stress'][s] = d.varray(2, 'stress', 'stress', 3, 3)
                d.done['stress', s] = len(d.P)
                want['energies'][s] = sc, d.energies(2, 'final')
                d.done['energies', s] = len(d.P)
        run = len(d.P)
        fin = d.structure(1, m, 'finalpos', 'fin')
        d.end()
        points = d.cuts(first, not sym)[:-3]
        i = h.choice('cut', list(range(len(points))))
        cut = points[i]
        how = h.choice('how', ['path', 'handler']) if both else ('path', 'handler')[i % 2]
        o = vx.parse(h, d.prefix(cut), False, how, extract_all=every)
        h.check(o.ok, 'truncated file is parsed')
        x = o.value
        h.check(x.truncated is True, 'reported as truncated')
        h.eq(x.get_version(), '5.4.4', 'version')
        h.eq([x.get_kpoints(), x.get_kpointsw(), x.get_dict()['lattice']['kpointdiv']], [k, w, div], 'k-points')
        h.eq(x.get_parameters(), par, 'parameters')
        h.eq(x.get_species(), sp, 'species')
        for q, name in enumerate(('unitcell', 'positions', 'forces', 'stress')):
            done = [s for s in range(1, n + 1) if d.complete((name, s), cut)]
            g = h.run(lambda: getattr(x, 'get_' + name)('all'))
            h.check(g.ok, f'{name} asked for')
            if not every:
                if q < 2:
                    h.eq(g.value[1], ini[q], f'initial {name}')
                    # the final structure is never complete here, unless its last line is all there
                    h.check(g.value[2] is None or cut[0] >= run, f'no final {name}') if g.value[2] is not g.value[1] else None
                elif done:
                    h.eq(g.value[1], want[name][1], f'{name} of the first step')
                    h.eq(g.value[2], want[name][done[-1]], f'{name} of the last step')
                else:
                    for s in (1, 2):
                        if g.value is not None and g.value[s] is not None:
                            h.eq(g.value[s], want[name][1], f'no {name} without a step')
                continue
            if done:
                h.check(g.value is not None, f'{name} of complete steps are reported')
                ini1 = getattr(x, 'get_' + name)('initial')
                # the first step stands in for a missing second one
                last = getattr(x, 'get_' + name)('last')
                h.eqs({f'{name} of complete steps': {s: g.value.get(s) for s in done}, f'initial {name}': ini1, f'last {name}': last},
                      {f'{name} of complete steps': {s: want[name][s] for s in done}, f'initial {name}': want[name][1],
                       f'last {name}': want[name][done[-1]]}, name)
            for s, v in (g.value or {}).items():
                if v is not None and s not in done:
                    # the closing tag ends where the file does, or the first standing in for the second
                    own = s in want[name] and d.complete((name, s), cut)
                    h.eq(v, want[name][s if own else 1], f'no {name} without a step')
        done = [s for s in range(1, n + 1) if d.done['energies', s] <= cut[0]]
        types = ['energy_' + t for t in NAMES]
        for nosc in (True, False):
            g = h.run(lambda: x.get_energies('all', types, nosc))
            h.check(g.ok, 'energies asked for')
            if g.value is None:
                h.check(not done, 'energies of complete steps are reported')
                continue
            # the energies of the step the file ends in may be there if they are complete
            e = len(g.value['electronic_steps'])
            h.check(len(done) <= e <= len(done) + 1 and e <= n, 'energies of complete steps are reported')
            done = list(range(1, e + 1))
            h.eq(g.value['electronic_steps'], [1] * e if nosc else done, 'electronic steps')
            for t in types:
                sc = [v for s in done for v in (want['energies'][s][0][t][-1:] if nosc else want['energies'][s][0][t])]
                h.eq(g.value[t], sc, 'electronic energies')
                h.eq(g.value[t + '_final'], [want['energies'][s][1][t] for s in done], 'final energies')
            i = x.get_energies('initial', types, nosc)
            for t in types:
                h.eq(i[t], want['energies'][1][0][t][-1:] if nosc else want['energies'][1][0][t], 'initial energies')
    return steps


DOCS = {'spin': ['eigenvalues', 'dos', 'partial', 'projected'], 'response': ['dynmat', 'born', 'tensors', 'functions', 'dos'],
        'specific': ['specific', 'eigenvalues', 'dos'], 'velocities': ['velocities', 'eigenvalues', 'dos']}
# getter -> section
GETTERS = {'eigenvalues': 'eigenvalues', 'occupancies': 'eigenvalues', 'dos': 'dos', 'dos_specific': 'dos2',
           'eigenvalues_specific': 'specific', 'eigenvelocities': 'velocities', 'kpoints_specific': ('specific', 'velocities'),
           'kpointsw_specific': ('specific', 'velocities'), 'projectors': 'projected', 'hessian': 'dynmat', 'dynmat': 'dynmat', 'born': 'born'}


def results(name, size):
    def results(h):
        """A file cut in the results of the last step."""
        from checks.P17 import finish, start
        d = vx.Doc(h, SYM)
        ns = 2 if name == 'spin' else 1
        start(h, d, size, size, ['Si', 'O'][:size], 1, True, ispin=ns)
        first = len(d.P)
        sections(d, DOCS[name], ns, size, size, size, size)
        finish(d, size)
        points = d.cuts(first)
        i = h.choice('cut', list(range(len(points) - 3)))
        cut = points[i][0]
        o = vx.parse(h, d.prefix(points[i]), False, ('path', 'handler')[i % 2])
        h.check(o.ok, 'truncated file is parsed')
        f = vx.parse(h, d, False)
        x, y = o.value, f.value
        h.check(x.truncated is True, 'reported as truncated')
        for g, s in GETTERS.items():
            got, full = getattr(x, 'get_' + g)(), getattr(y, 'get_' + g)()
            if isinstance(s, tuple):
                s = [t for t in s if t in d.done][-1:]
                s = s[0] if s else None
            if s in d.done and d.done[s] <= cut:
                h.eq(got, full, f'{g} complete before the cut')
            elif got is not None:
                # all of the numbers are there
                h.eq(got, full, f'no {g} before they are complete')
        got, full = x.get_dielectrics() or {}, y.get_dielectrics() or {}
        for k, v in full.items():
            s = k if k.startswith('epsilon') else 'functions'
            if s in d.done and d.done[s] <= cut:
                h.eq(got.get(k), v, f'{k} complete before the cut')
            elif got.get(k) is not None:
                h.eq(got[k], v, f'no {k} before it is complete')
    results.__name__ = 'results_' + name
    return results


def harnesses(tier):
    q = tier == 'quick'
    return [('flag', flag([0, 3, 12])), ('steps', steps([2, 3] if q else [1, 2, 3], True, not q)),
            ('inside', steps([1, 2] if q else [1, 2, 3], False, not q))] + [('results_' + n, results(n, s)) for n in DOCS for s in ([1] if q else [1, 2])]
