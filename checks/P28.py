"""Objects are independent of each other, of what was parsed before, and leave what they were given as it was."""
from checks import P15, P21, P27, vx
from checks.P05 import FORMS, content, objects
from checks.P07 import arr_of, contents, site
from checks.P17 import finish, start
from checks.P19 import sections
from checks.P27 import ASK, FORMS as XFORMS, frozen, q_vasprun
from checks.P02 import typed
from symex.harness import plain

BOUNDS = ('two objects built from one INCAR, KPOINTS or POSCAR dictionary, or given one list, one of them edited and written; parsing of '
          'every small file used for the sources before and after another one of the same kind (and with another configuration, for the '
          'stream; with either method, for vasprun.xml); all numbers and letters symbolic')


class Second:
    """The harness for a second document: the same questions under other names."""

    def __init__(self, h):
        self._h = h

    def __getattr__(self, name):
        f = getattr(self._h, name)
        if name in ('choice', 'size', 'int', 'real', 'num', 'inum', 'enum', 'char', 'chars', 'anycase'):
            return lambda n, *a, **kw: f('b_' + n, *a, **kw)
        return f


def answers(h, k):
    return {q: frozen(h, k[q]) for q in k}


KINDS = ['energy_no_entropy', 'energy_free', 'energy_extrapolated']


def history(doc):
    """One file, then another of the kind, then the first once more."""
    def har(h):
        docs = []

        def use(h, name, cls, L, see, strings, want, **kw):
            docs.append((name, cls, L, want, kw))
        doc(h, use)
        doc(Second(h), use)
        (name, cls, L, want, kw), (_, _, L2, want2, kw2) = docs
        K = getattr(h.mod(name), cls)
        a = P21.build(h, K, name, L, ('handler', '\n', True), **kw)
        h.check(a.ok is want, 'accepted' if want else 'refused')
        first = answers(h, ASK[name](h, a.value)) if want else None
        b = P21.build(h, K, name, L2, ('path', '\n', True), **kw2)
        h.check(b.ok is want2, 'accepted' if want2 else 'refused')
        if want2:
            answers(h, ASK[name](h, b.value))
        c = P21.build(h, K, name, L, ('handler', '\n', True), **kw)
        h.check((c.kind, c.code, c.exc) == (a.kind, a.code, a.exc), 'the same outcome after another file')
        if want:
            h.eq(answers(h, ASK[name](h, a.value)), first, 'another file does not reach an object')
            h.eq(answers(h, ASK[name](h, c.value)), first, 'the same file gives the same after another one')
    har.__name__ = doc.__name__
    return har


def vasprun(h):
    docs, what = [], []
    for g in (h, Second(h)):
        form, steps = g.choice('form', [(f, s) for f in XFORMS for s in ((1, 2) if not f else (1,))])
        d = vx.Doc(g, ('kpoints', 'pos', 'cell', 'force', 'final', 'sc', 'dos', 'eig', 'born', 'hess', 'eig2', 'proj'))
        start(g, d, 1, 1, ['Si'], steps, True)
        sections(d, form, 1, 1, 1, 1, 1)
        finish(d, 1)
        docs.append(d)
        what.append(g.choice('event', [False, True]))
    a = vx.parse(h, docs[0], what[0])
    h.check(a.ok, 'accepted')
    first = answers(h, q_vasprun(a.value))
    b = vx.parse(h, docs[1], what[1])
    h.check(b.ok, 'accepted')
    answers(h, q_vasprun(b.value))
    c = vx.parse(h, docs[0], what[0])
    h.check(c.ok, 'accepted')
    h.eq(answers(h, q_vasprun(a.value)), first, 'another file does not reach an object')
    h.eq(answers(h, q_vasprun(c.value)), first, 'the same file gives the same after another one')
    kinds = list(KINDS)
    for status in ('all', 'last'):
        a.value.get_energies(status, kinds, nosc=False)
        h.eq(kinds, KINDS, 'a list supplied is not changed')


def configured(h):
    """A configuration belongs to the object it was given to."""
    S = h.mod('stream').Stream
    name = h.choice('name', ['zbrent', 'mine', 'nostart'])
    inv = h.choice('inverse', [False, True])
    kind = h.choice('kind', ['ERROR', 'WARNING'])
    c = h.char('c', 'fx')
    L = [P15.START, h.join('', ['ZBRENT: ', c, 'atal error in bracketing']), ' mine']
    cfg = {name: {'kind': kind, 'regex': 'mine', 'message': 'A message', 'inverse': inv}}
    before = {n: dict(v) for n, v in cfg.items()}

    def go(**kw):
        r = h.run(lambda: S(file_handler=h.file(h.lines(L)), logger=h.logger, **kw))
        h.check(r.ok, 'stream is parsed')
        return r.value
    a = go()
    first = answers(h, P27.q_stream(h, a))
    b = go(config=cfg)
    second = answers(h, P27.q_stream(h, b))
    h.eq(cfg, before, 'the configuration supplied is not changed')
    h.eq(answers(h, P27.q_stream(h, go())), first, 'the standard configuration is not changed')
    h.eq(answers(h, P27.q_stream(h, go(config=cfg))), second, 'the same configuration gives the same again')
    h.eq(answers(h, P27.q_stream(h, a)), first, 'another stream does not reach an object')


def incar_dict(h):
    I = h.mod('incar').Incar
    kind = h.choice('kind', ['int', 'plain float', 'bool', 'words', 'ints', 'floats'])
    v, e = typed(h, kind, 'v')
    other = [h.int('i0', 0, 9), h.int('i1', 0, 9)]
    d = {'ENCUT': v, 'dipol': other}

    def seen():
        return {n: list(x) if isinstance(x, list) else x for n, x in d.items()}
    before = seen()
    a, b = h.run(lambda: I(incar_dict=d, logger=h.logger)), h.run(lambda: I(incar_dict=d, logger=h.logger))
    h.check(a.ok and b.ok, 'valid dictionary accepted')
    a, b = a.value, b.value
    first = answers(h, P27.q_incar(h, b))
    op = h.choice('op', ['modify', 'delete', 'add', 'write'])
    tag = h.choice('tag', ['encut', 'DIPOL'])
    w, _ = typed(h, 'ints', 'w')
    r = h.run({'modify': lambda: a.modify(tag, w), 'delete': lambda: a.delete(tag), 'add': lambda: a.modify('NSW', 3),
               'write': a.get_string}[op])
    h.check(r.ok, 'edit accepted')
    given = list(w)
    a.get_string()
    a.modify('LREAL', True)
    h.eq(w, given, 'a value supplied is not changed')
    h.eq(seen(), before, 'the dictionary supplied is not changed')
    h.eq(answers(h, P27.q_incar(h, b)), first, 'edits do not reach another object')
    c = h.run(lambda: I(incar_dict=d, logger=h.logger))
    h.check(c.ok, 'valid dictionary accepted')
    h.eq(answers(h, P27.q_incar(h, c.value)), first, 'edits do not reach later objects')


def point(p):
    return [plain(p.get_point()), p.get_weight(), p.get_direct()]


def kpoints_dict(h):
    m = h.mod('kpoints')
    mode, opt = h.choice('form', FORMS)
    n = 1 if mode == 'explicit' and opt == 'tetra' else 2
    d = content(h, mode, n, 6, opt)
    o = objects(h, d)

    def seen():
        return {k: [point(p) for p in v] if k == 'points' and v is not None else plain(v) for k, v in o.items()}
    before = seen()
    a, b = h.run(lambda: m.Kpoints(kpoints_dict=o, logger=h.logger)), h.run(lambda: m.Kpoints(kpoints_dict=o, logger=h.logger))
    h.check(a.ok and b.ok, 'valid dictionary accepted')
    a, b = a.value, b.value
    first = answers(h, P27.q_kpoints(h, b))
    op = h.choice('op', ['comment', 'write'] + (['point', 'delete', 'points'] if mode != 'automatic' else ['shifts']) +
                  (['tetra'] if opt == 'tetra' else []))
    q = [h.real(f'q{j}', 4, -9, 9) for j in range(3)]
    shared = None
    if op == 'points':
        shared = [m.Kpoint(q, 1.0), m.Kpoint(q, 1.0)]
        h.check(h.run(lambda: a.modify('points', shared)).ok, 'edit accepted')
        h.check(h.run(lambda: b.modify('points', shared)).ok, 'edit accepted')
        first = answers(h, P27.q_kpoints(h, b))
        r = h.run(lambda: a.modify('points', m.Kpoint([0.0, 0.0, 0.0], 1.0), point_number=1))
        h.eq([point(p) for p in shared], [[q, 1.0, True]] * 2, 'a list supplied is not changed')
    else:
        new = m.Kpoint(q, None if mode == 'explicit' else 1.0)
        given = point(new)
        r = h.run({'comment': lambda: a.modify('comment', 'new'), 'write': a.get_string, 'shifts': lambda: a.modify('shifts', q),
                   'point': lambda: a.modify('points', new, point_number=0), 'delete': lambda: a.delete_point(0),
                   'tetra': lambda: a.modify('tetra', [[1, 1, 2, 3, 4]])}[op])
        for f in (a.get_string, a.get_dict):
            h.check(h.run(f).ok, 'answered after the edit')
        h.eq(point(new), given, 'a point supplied is not changed')
    h.check(r.ok, 'edit accepted')
    h.eq(seen(), before, 'the dictionary supplied is not changed')
    h.eq(answers(h, P27.q_kpoints(h, b)), first, 'edits do not reach another object')
    if op != 'points':
        c = h.run(lambda: m.Kpoints(kpoints_dict=o, logger=h.logger))
        h.check(c.ok, 'valid dictionary accepted')
        h.eq(answers(h, P27.q_kpoints(h, c.value)), first, 'edits do not reach later objects')


def site_of(s):
    if isinstance(s, dict):
        return {k: plain(v) for k, v in s.items()}
    return [s.get_specie(), plain(s.get_position()), plain(s.get_selective()), plain(s.get_velocities()), plain(s.get_predictors()),
            s.get_direct()]


def poscar_dict(h):
    P = h.mod('poscar')
    form = h.choice('given', ['dicts', 'Sites'])
    direct = h.choice('direct', [True, False])
    opt = h.choice('opt', ['plain', 'velocities', 'selective velocities predictors'])
    d = contents(h, ['O', 'Si'], opt, 4)
    o = {'comment': 'old', 'unitcell': arr_of(h)(d['cell']), 'sites': [site(h, P, d, i, form, direct) for i in range(2)]}

    def seen():
        return {'comment': o['comment'], 'unitcell': plain(o['unitcell']), 'sites': [site_of(s) for s in o['sites']]}
    before = seen()
    a, b = h.run(lambda: P.Poscar(poscar_dict=o, logger=h.logger)), h.run(lambda: P.Poscar(poscar_dict=o, logger=h.logger))
    h.check(a.ok and b.ok, 'valid dictionary accepted')
    a, b = a.value, b.value
    first = answers(h, P27.q_poscar(h, b))
    op = h.choice('op', ['comment', 'unitcell', 'site', 'delete', 'sites', 'write', 'cartesian'])
    q = arr_of(h)([h.real(f'q{j}', 4, -9, 9) for j in range(3)])
    new = site(h, P, contents(h, ['H'], opt, 4, 0, 'n'), 0, 'Sites')
    if op == 'sites':
        shared = [P.Site('H', q), P.Site('O', q)]
        h.check(h.run(lambda: a.modify('sites', shared)).ok, 'edit accepted')
        h.check(h.run(lambda: b.modify('sites', shared)).ok, 'edit accepted')
        first = answers(h, P27.q_poscar(h, b))
        r = h.run(lambda: a.delete_site(0))
        h.check(len(shared) == 2, 'a list supplied is not changed')
    else:
        given = site_of(new)
        r = h.run({'comment': lambda: a.modify('comment', 'new'), 'unitcell': lambda: a.modify('unitcell', arr_of(h)([[1., 0, 0], [0, 1, 0], [0, 0, 2]])),
                   'site': lambda: a.modify('sites', new, 1), 'delete': lambda: a.delete_site(0), 'write': a.get_string,
                   'cartesian': lambda: a.get_dict(direct=False)}[op])
        for f in (a.get_string, a.get_dict, lambda: a.get_dict(direct=False)):
            h.check(h.run(f).ok, 'answered after the edit')
        h.eq(site_of(new), given, 'a site supplied is not changed')
    h.check(r.ok, 'edit accepted')
    h.eq(seen(), before, 'the dictionary supplied is not changed')
    h.eq(answers(h, P27.q_poscar(h, b)), first, 'edits do not reach another object')
    if op != 'sites':
        c = h.run(lambda: P.Poscar(poscar_dict=o, logger=h.logger))
        h.check(c.ok, 'valid dictionary accepted')
        h.eq(answers(h, P27.q_poscar(h, c.value)), first, 'edits do not reach later objects')


def harnesses(tier):
    return [('vasprun', vasprun), ('stream_config', configured), ('incar_dict', incar_dict), ('kpoints_dict', kpoints_dict),
            ('poscar_dict', poscar_dict)] + [(f.__name__, history(f)) for f in (
                P21.incar, P21.kpoints, P21.poscar, P21.eigenval, P21.doscar, P21.chgcar, P21.outcar, P21.potcar, P21.stream)]
