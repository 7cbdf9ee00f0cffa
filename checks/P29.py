"""INCAR, KPOINTS, POSCAR: contents of the wrong type are refused, whether in a dictionary or in an edit."""
from . import inc
from .P05 import FORMS, content, objects
from .P07 import CELLS, arr_of, build, contents, rvec, site

BOUNDS = ('every entry of a KPOINTS of every mode, of a POSCAR of two sites and of an INCAR, with every kind of wrong value (another type at '
          'any place of a list, a wrong length, an unknown name, a foreign object at any place, a missing entry), in a dictionary and in an '
          'edit of a valid object with and without a comment; numbers and letters symbolic')
ASSUMPTIONS = ['None is not among the wrong values of an edit of KPOINTS (it stands for "not given" there)']

KEYS = ['comment', 'mode', 'num_kpoints', 'centering', 'divisions', 'shifts', 'generating_vectors', 'tetra', 'tetra_volume', 'points']
CODES = {'type': 13, 'tetra': 201, 'object': 210, 'direct': 205, 'centering': 212, 'mode': 213}


def wrong(h, m, key):
    """A value that the entry can not have, and why."""
    r = lambda n: h.real(f'r{n}', 3, 1, 9)
    i = lambda n: h.int(f'i{n}', 1, 9)
    if key == 'comment':
        return h.choice('v', [5, ['a'], b'a', True]), 'type'
    if key == 'mode':
        return h.join('', [h.char('c', 'aeEl '), h.choice('v', ['xplicit', 'xplicit ', 'xplici'])]), 'mode'
    if key == 'centering':
        return h.join('', [h.char('c', 'gGM'), h.choice('v', ['amma', 'amma ', 'onkhorst-Pack', 'onkhorst', 'P'])]), 'centering'
    if key == 'num_kpoints':
        return h.choice('v', [r(0), 'x', [1]]), 'type'
    if key == 'tetra_volume':
        return h.choice('v', [i(0), 'x', [1.0]]), 'type'
    if key in ('divisions', 'shifts'):
        good, bad = (i, r) if key == 'divisions' else (r, i)
        v = h.choice('v', ['element', 'letter', 'short', 'long', 'empty', 'tuple', 'number'])
        x = [good(f'g{k}') for k in range({'short': 2, 'long': 4, 'empty': 0}.get(v, 3))]
        if v in ('element', 'letter'):
            x[h.choice('at', [0, 1, 2])] = bad('b') if v == 'element' else 'x'
        return tuple(x) if v == 'tuple' else x[0] if v == 'number' else x, 'type'
    if key == 'generating_vectors':
        v = h.choice('v', ['element', 'row', 'short row', 'long row', 'short', 'long', 'tuple', 'number'])
        x = [[r(f'{a}{b}') for b in range(3)] for a in range({'short': 2, 'long': 4}.get(v, 3))]
        at = h.choice('at', [0, 1, 2]) if v in ('element', 'row', 'short row', 'long row') else 0
        if v == 'element':
            x[at][h.choice('column', [0, 1, 2])] = i('b')
        elif v == 'row':
            x[at] = tuple(x[at])
        elif v == 'short row':
            x[at] = x[at][:2]
        elif v == 'long row':
            x[at] = x[at] + [r('l')]
        return tuple(x) if v == 'tuple' else x[0][0] if v == 'number' else x, 'type'
    if key == 'tetra':
        v = h.choice('v', ['element', 'row', 'short row', 'long row', 'tuple', 'number'])
        x = [[i(f'{a}{b}') for b in range(5)] for a in range(2)]
        at = h.choice('at', [0, 1]) if v in ('element', 'row', 'short row', 'long row') else 0
        if v == 'element':
            x[at][h.choice('column', range(5))] = r('b')
        elif v == 'row':
            x[at] = tuple(x[at])
        elif v == 'short row':
            x[at] = x[at][:4]
        elif v == 'long row':
            x[at] = x[at] + [i('l')]
        return tuple(x) if v == 'tuple' else x[0][0] if v == 'number' else x, 'tetra' if v in ('short row', 'long row') else 'type'
    x = [m.Kpoint([r(f'{a}{b}') for b in range(3)], r(f'w{a}')) for a in range(2)]
    v = h.choice('v', ['list', 'nothing', 'name', 'cartesian', 'tuple', 'point'])
    at = h.choice('at', [0, 1]) if v not in ('tuple', 'point') else 0
    if v in ('list', 'nothing', 'name'):
        x[at] = {'list': [0.0, 0.0, 0.0], 'nothing': None, 'name': 'G'}[v]
        return x, 'object'
    if v == 'cartesian':
        x[at] = m.Kpoint([r(f'c{b}') for b in range(3)], r('cw'), direct=False)
        return x, 'direct'
    return tuple(x) if v == 'tuple' else x[0], 'type'


def start(h, forms):
    mode, opt = h.choice('form', forms)
    d = content(h, mode, 2, 3, opt)
    d['comment'] = h.choice('comment', ['some comment', None])
    return mode, d


def kpoints(h):
    m = h.mod('kpoints')
    key = h.choice('key', KEYS)
    forms = {'points': FORMS[:2] + FORMS[3:5], 'comment': FORMS[:1] + FORMS[-1:]}.get(key, FORMS[2:6:3] + FORMS[3:4])
    mode, d = start(h, forms)
    o = objects(h, d)
    v, why = wrong(h, m, key)
    how = h.choice('how', ['dict', 'edit'])
    if how == 'edit':
        r = h.run(lambda: m.Kpoints(kpoints_dict=o, logger=h.logger))
        h.check(r.ok, 'valid dictionary accepted')
        a = h.run(lambda: r.value.modify(key, v))
    else:
        a = h.run(lambda: m.Kpoints(kpoints_dict=dict(o, **{key: v}), logger=h.logger))
    fine = False
    if key in ('mode', 'centering'):
        fine = any([h.true(v == x) for x in (('explicit', 'automatic', 'line') if key == 'mode' else ('Gamma', 'Monkhorst-Pack'))])
    if fine:
        h.check(a.ok, 'a valid value is accepted')
        return
    h.check(a.kind == 'exit' and a.code == CODES[why], f'{key}: documented exit code')
    if how == 'edit':
        h.eq(r.value.get_dict(), d, 'a refused edit changes nothing')


def point(h):
    """Single points: foreign objects, cartesian ones, numbers that are no numbers, and no list at all."""
    m = h.mod('kpoints')
    mode, d = start(h, [FORMS[0], FORMS[3], FORMS[4], FORMS[7]])
    n = len(d['points'] or [])
    r = h.run(lambda: m.Kpoints(kpoints_dict=objects(h, d), logger=h.logger))
    h.check(r.ok, 'valid dictionary accepted')
    k = r.value
    q = [h.real(f'q{j}', 3, -9, 9) for j in range(3)]
    what = h.choice('what', ['list', 'nothing', 'cartesian', 'too large', 'delete too large', 'text', 'delete text', 'real'])
    at = h.int('at', n, 50) if 'large' in what else '0' if 'text' in what else h.real('x', 2, 0, 1) if what == 'real' else 0
    new = {'list': q, 'nothing': None, 'cartesian': m.Kpoint(q, 1.0, direct=False)}.get(what, m.Kpoint(q, 1.0))
    a = h.run((lambda: k.delete_point(at)) if 'delete' in what else (lambda: k.modify('points', new, point_number=at)))
    code = {'list': 210, 'nothing': 210, 'cartesian': 205}.get(what, 211 if 'large' in what else 13)
    h.check(a.kind == 'exit' and a.code == code, f'{what}: documented exit code')
    h.eq(k.get_dict(), d, 'a refused edit changes nothing')


def missing(h):
    """A dictionary of KPOINTS or POSCAR without one of its entries."""
    m = h.mod('kpoints')
    if h.choice('file', ['KPOINTS', 'POSCAR']) == 'KPOINTS':
        mode, d = start(h, FORMS)
        o = objects(h, d)
        gone = h.choice('gone', KEYS)
        del o[gone]
        a = h.run(lambda: m.Kpoints(kpoints_dict=o, logger=h.logger))
        only = {'explicit': 'points', 'line': 'points'}.get(mode, 'divisions' if d['divisions'] is not None else 'generating_vectors')
        h.check(a.kind == 'exit' and a.code == (206 if gone == only else 12), 'a missing entry ends in the documented exit code')
    else:
        P = h.mod('poscar')
        d = contents(h, ['Si', 'O'], 'plain', 3)
        c = {'comment': h.choice('comment', ['x', None]), 'unitcell': arr_of(h)(d['cell']), 'sites': [site(h, P, d, i, 'Sites') for i in range(2)]}
        del c[h.choice('gone', ['comment', 'unitcell'])]
        a = h.run(lambda: P.Poscar(poscar_dict=c, logger=h.logger))
        h.check(a.kind == 'exit' and a.code == 12, 'a missing entry ends in the documented exit code')


def poscar(h):
    P = h.mod('poscar')
    A = arr_of(h)
    d = contents(h, ['Si', 'O'], h.choice('opt', ['plain', 'selective velocities predictors']), 3)
    com = h.choice('comment', ['old', None, ''])
    how = h.choice('how', ['dict', 'edit', 'site'])
    r = build(h, d, 'Sites', com)
    h.check(r.ok, 'valid dictionary accepted')
    k = r.value
    before = k.get_dict()
    s = [site(h, P, d, i, 'Sites') for i in range(2)]
    if how == 'site':
        bad = h.choice('bad', ['dict', 'position', 'nothing', 'name', 'list'])
        v = {'dict': site(h, P, d, 0, 'dicts'), 'position': A(d['pos'][0]), 'nothing': None, 'name': 'Si', 'list': s[:1]}[bad]
        a = h.run(lambda: k.modify('sites', v, h.choice('at', [0, 1])))
    else:
        key = h.choice('key', ['comment', 'unitcell', 'sites'])
        if key == 'comment':
            v = h.choice('bad', [5, ['a'], b'a', 1.5])
        elif key == 'unitcell':
            c = [rvec(h, f'c{i}', 3) for i in range(4)]
            v = h.choice('bad', [c[:3], A(c[:2]), A(c), A([x[:2] for x in c[:3]]), A(c[0]), c[0][0], A(sum(c[:3], [])), A([sum(c[:3], [])]),
                                 A([[[x] for x in y] for y in c[:3]])])
        else:
            bad = h.choice('bad', ['tuple', 'site', 'position', 'nothing', 'name', 'dict'] if how == 'edit' else ['tuple', 'nothing at all'])
            if bad in ('tuple', 'site', 'nothing at all'):
                v = {'tuple': tuple(s), 'site': s[0], 'nothing at all': 5}[bad]
            else:
                s[h.choice('at', [0, 1])] = {'position': A(d['pos'][0]), 'nothing': None, 'name': 'Si', 'dict': site(h, P, d, 0, 'dicts')}[bad]
                v = s
        if how == 'edit':
            a = h.run(lambda: k.modify(key, v))
        else:
            if key == 'sites':
                return h.check(True, 'sites of a dictionary may be of any iterable')
            a = h.run(lambda: P.Poscar(poscar_dict=dict({'comment': com, 'unitcell': A(d['cell']), 'sites': s}, **{key: v}), logger=h.logger))
    h.check(a.kind == 'exit' and a.code == 13, 'documented exit code')
    h.eq(k.get_dict(), before, 'a refused edit changes nothing')


def incar(h):
    I = h.mod('incar').Incar
    v = h.int('v', 1, 99)
    w = h.chars('w', 2, inc.LETTERS)
    f = h.real('f', 2, 0, 9)
    bad = h.choice('bad', [None, (v, v), {}, {'a': v}, b'1', 1j, {1}, 'mixed', 'mixed more', 'word first', 'reals'])
    code = 105
    if isinstance(bad, str):
        bad = h.join('', {'mixed': ['1 ', w], 'mixed more': ['1 2 3 4 ', w, ' 5'], 'word first': [w, ' 1.5'], 'reals': ['1.5 2 ', '2.5']}[bad])
        code = 104
    com = h.choice('comment', [None, 'c'])
    how = h.choice('how', ['dict', 'edit', 'new'])
    start = {'encut': v, 'isym': 2}
    if how == 'dict':
        a = h.run(lambda: I(incar_dict=dict(start, nsw=bad), logger=h.logger))
    else:
        r = h.run(lambda: I(incar_dict=start, logger=h.logger))
        h.check(r.ok, 'valid start accepted')
        a = h.run(lambda: r.value.modify('ENCUT' if how == 'edit' else 'NSW', bad, com))
        h.eq(r.value.get_dict(), {'encut': v, 'isym': 2}, 'a refused edit changes nothing')
    h.check(a.kind == 'exit' and a.code == code, 'documented exit code')


def harnesses(tier):
    return [('kpoints', kpoints), ('point', point), ('missing', missing), ('poscar', poscar), ('incar', incar)]
