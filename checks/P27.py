"""Asking an object or writing it does not change what it answers afterwards."""
from checks import P21, vx
from checks.P17 import finish, start
from checks.P19 import sections
from symex.harness import plain

BOUNDS = ('the small files of each kind used for the sources (a few layouts per parser), all numbers and letters symbolic; every sequence of '
          'two questions (thorough: three for the input files) followed by all of them in the opposite order, compared with a fresh object '
          'asked in order; the vasprun.xml with both parsing methods')


def text(h, k, **kw):
    def ask():
        p = h.outpath()
        k.write(file_path=p, **kw)
        return h.contents(p)
    return ask


def handler(h, k, **kw):
    def ask():
        f = h.file('')
        k.write(file_handler=f, **kw)
        return f.getvalue()
    return ask


def sites(d):
    return dict(d, sites=[dict(s) for s in d['sites']])


def xyz(m):
    return {a: m[a] for a in 'xyz'} if isinstance(m, dict) else m


def q_incar(h, k):
    return {'get_dict': k.get_dict, 'get_string': k.get_string, 'comments': handler(h, k, comments=True), 'path': text(h, k),
            'get': lambda: k.get('ENCUT', comment=True), 'validate': k.validate, 'absent': lambda: k.get('nope')}


def q_kpoints(h, k):
    return {'get_dict': k.get_dict, 'get_string': k.get_string, 'path': text(h, k), 'handler': handler(h, k),
            'comment': lambda: k.get('comment'), 'absent': lambda: k.get('nope')}


def q_poscar(h, k):
    return {'get_dict': lambda: sites(k.get_dict()), 'cartesian': lambda: sites(k.get_dict(direct=False)), 'get_string': k.get_string,
            'path': text(h, k), 'handler': handler(h, k), 'get': lambda: k.get('unitcell'), 'absent': lambda: k.get('nope')}


def q_eigenval(h, k):
    return {'eigenvalues': k.get_eigenvalues, 'kpoints': k.get_kpoints, 'metadata': k.get_metadata}


def q_doscar(h, k):
    return {'dos': k.get_dos, 'pdos': k.get_pdos, 'metadata': k.get_metadata}


def q_chgcar(h, k):
    return {'charge': lambda: k.charge_density, 'magnetization': lambda: xyz(k.magnetization_density)}


def q_outcar(h, k):
    return {'status': k.get_run_status, 'stats': k.get_run_stats, 'moduli': k.get_elastic_moduli, 'magnetization': k.get_magnetization,
            'symmetry': k.get_symmetry}


def q_potcar(h, k):
    return {'metadata': lambda: k.metadata, 'symbol': lambda: k.symbol, 'element': lambda: k.element, 'functional': lambda: k.functional,
            'class': lambda: k.functional_class}


def q_stream(h, k):
    return {'entries': lambda: [[e.shortname, e.kind, e.message, e.recover] for e in k.entries], 'number': lambda: k.number_of_entries,
            'has': lambda: k.has_entries, 'kinds': lambda: k.kinds, 'configured': lambda: {n: len(v) for n, v in k.configured_streams.items()},
            'repr': lambda: repr(k), 'str': lambda: str(k)}


ASK = {n[2:]: f for n, f in list(globals().items()) if n.startswith('q_')}


def frozen(h, ask):
    """The answer, copied, so that later changes to the object cannot reach it."""
    r = h.run(ask)
    if r.ok:
        return plain(r.value) if not isinstance(r.value, (set, frozenset)) else sorted(r.value)
    return [r.kind, r.code, r.exc]


def compare(h, k, ref, first):
    for q in first:
        frozen(h, k[q])
    want = {q: frozen(h, ref[q]) for q in ref}
    got = {q: frozen(h, k[q]) for q in reversed(list(k))}
    for q in want:
        h.eq(got[q], want[q], f'answer to {q} does not depend on what was asked before')


def asked(doc, n):
    def har(h):
        def use(h, name, cls, L, see, strings, want, **kw):
            if not want:
                return
            K = getattr(h.mod(name), cls)
            a = P21.build(h, K, name, L, ('handler', '\n', True), **kw)
            b = P21.build(h, K, name, L, ('handler', '\n', True), **kw)
            h.check(a.ok and b.ok, 'accepted')
            k, ref = ASK[name](h, a.value), ASK[name](h, b.value)
            first = [h.choice(f'first{i}', list(k)) for i in range(n)]
            compare(h, k, ref, first)
        doc(h, use)
    har.__name__ = doc.__name__
    return har


XML = ['kpoints', 'kpointsw', 'species', 'eigenvalues', 'occupancies', 'eigenvalues_specific', 'kpoints_specific', 'kpointsw_specific',
       'eigenvelocities', 'dos', 'dos_specific', 'projectors', 'hessian', 'dynmat', 'born', 'dielectrics', 'epsilon', 'epsilon_ion',
       'fermi_level', 'fermi_level_specific', 'version', 'parameters', 'dict']
STATUS = ['unitcell', 'positions', 'forces', 'stress', 'lattice']
TYPES = ['energy_free', 'energy_no_entropy', 'energy_extrapolated']


def q_vasprun(x):
    d = {g: getattr(x, 'get_' + g) for g in XML}
    for g in STATUS:
        for s in ('all', 'initial', 'last'):
            d[f'{g} {s}'] = lambda g=g, s=s: getattr(x, 'get_' + g)(s)
    for s in ('all', 'initial', 'last'):
        for nosc in (True, False):
            d[f'energies {s} {nosc}'] = lambda s=s, nosc=nosc: x.get_energies(s, TYPES, nosc)
    d['default energies'] = lambda: x.get_energies('all')
    d['refused'] = lambda: x.get_forces('middle')
    return d


FORMS = [['eigenvalues', 'dos', 'partial', 'projected'], ['dynmat', 'born', 'tensors', 'functions', 'dos'],
         ['specific', 'eigenvalues', 'dos', 'velocities'], []]


def vasprun(h):
    form, steps = h.choice('form', [(f, s) for f in FORMS for s in ((1, 2, 3) if not f else (1,))])
    d = vx.Doc(h, ('kpoints', 'pos', 'cell', 'force', 'stress', 'final', 'sc', 'dos', 'eig', 'born', 'hess', 'eig2', 'dos2', 'proj'))
    start(h, d, 1, 1, ['Si'], steps, True)
    sections(d, form, 1, 1, 1, 1, 1)
    finish(d, 1)
    event = h.choice('event', [False, True])
    a, b = vx.parse(h, d, event), vx.parse(h, d, event)
    h.check(a.ok and b.ok, 'accepted')
    k, ref = q_vasprun(a.value), q_vasprun(b.value)
    compare(h, k, ref, [h.choice('first', list(k))])


def harnesses(tier):
    n = 2 if tier == 'quick' else 3
    out = [('vasprun', vasprun)]
    for f in (P21.incar, P21.kpoints, P21.poscar):
        out.append((f.__name__, asked(f, n)))
    for f in (P21.eigenval, P21.doscar, P21.chgcar, P21.outcar, P21.potcar, P21.stream):
        out.append((f.__name__, asked(f, 2)))
    return out
