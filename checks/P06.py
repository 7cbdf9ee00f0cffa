"""POSCAR parsing: cell, species, positions, flags, velocities and predictors are the ones the file states."""
from symex.harness import Tok

from . import pc

BOUNDS = ('1-3 and 11-13 sites in 11 groupings of species (with empty and repeated groups), two general cells and one fully symbolic cell, '
          'symbolic scaling factor, direct and cartesian positions and velocities, selective flags in 3 spellings, predictors, 0-2 '
          'trailing blank lines, string, path and handler, keywords in any letter case, species names with suffixes in either case; every number symbolic')
ASSUMPTIONS = ['keywords start in the first column; predictors are one line per site after one blank line; cell not degenerate']

VARIANTS = [dict(sel=False), dict(sel=True), dict(sel=True, ft='tf'), dict(sel=True, ft='long'), dict(vel='Direct'),
            dict(vel='Cartesian'), dict(vel='Direct', pred=True), dict(vel='Cartesian', pred=True), dict(pred=True),
            dict(sel=True, vel='cart', pred=True), dict(extra=' ! Si'), dict(sel=True, extra=' Si1')]


def full(groups, variants=VARIANTS):
    def har(h):
        v = h.choice('variant', variants)
        group = h.choice('group', groups)
        kind = h.choice('kind', ['Direct', 'Cartesian'])
        scale = h.num('scale', 4, '0.01', 9)
        L, d = pc.document(h, group, 0, v.get('sel', False), kind, v.get('vel'), v.get('pred', False), scale,
                           flagtext=v.get('ft', 'TF'), extra=v.get('extra', ''))
        r = pc.make(h, h.mod('poscar').Poscar, L, h.choice('src', ['string', 'handler']) if v == VARIANTS[0] else 'string')
        h.check(r.ok, 'well-formed POSCAR is parsed')
        g = h.run(r.value.get_dict)
        h.check(g.ok, 'get_dict succeeds')
        pc.compare(h, g.value, d, kind[0] == 'D', (v.get('vel') or 'D')[0] == 'D')
        for t in ('comment', 'unitcell'):
            h.eq(r.value.get(t), g.value[t], 'get agrees with get_dict')
        h.check(r.value.get('nothing') is None, 'get of an unknown tag gives None')
        if v == VARIANTS[0] or 'vel' in v:
            c = h.run(lambda: r.value.get_dict(direct=False))
            h.check(c.ok, 'get_dict in cartesian coordinates succeeds')
            tol = None if h.symbolic else 1e-6
            for i, s in enumerate(c.value['sites']):
                h.check(s['direct'] is False, 'reported as cartesian')
                q = d['pos'][i]
                e = pc.combine(q, d['cell']) if kind[0] == 'D' else [d['scale'] * x for x in q]
                h.eq(s['position'], e, 'cartesian positions', tol)
                if d['vel']:
                    q = d['vel'][i]
                    h.eq(s['velocities'], pc.combine(q, d['cell']) if v['vel'][0] == 'D' else q, 'cartesian velocities', tol)
    return har


def layout(h):
    """Spelling of keywords, trailing blank lines, sources, comments."""
    kind = h.join('', [h.anycase('kw', 'd'), h.choice('krest', ['irect', '', 'IRECT coordinates'])])
    sel = h.choice('sel', [False, True])
    selw = h.join('', [h.anycase('sw', 's'), 'elective'])
    comment = h.choice('comment', ['two words', '# marked', '', 'x # y', 'Ω  much  longer ' * 9 + '.'])
    block = h.choice('block', ['none', 'velocities', 'predictors', 'both'])
    trail = h.choice('trail', [0, 1, 2, 'no newline', 'blanks'])
    src = h.choice('src', ['string', 'path', 'handler'])
    vel = h.join('', [h.anycase('vw', 'd'), 'irect']) if block in ('velocities', 'both') else None
    L, d = pc.document(h, [('Si', 1), ('O', 1)], 1, sel, kind, vel, block in ('predictors', 'both'), None, comment, selw)
    d['comment'] = comment.replace('#', '').strip()
    r = pc.make(h, h.mod('poscar').Poscar, L, src, 2 if trail == 'blanks' else trail if trail != 'no newline' else 0,
                trail != 'no newline', blank='   ' if trail == 'blanks' else '')
    h.check(r.ok, 'well-formed POSCAR is parsed')
    pc.compare(h, r.value.get_dict(), d)


def symbolic_cell(h):
    kind = h.choice('kind', ['Direct', 'Cartesian'])
    vel = h.choice('vel', [None, 'Direct', 'Cartesian'])
    L, d = pc.document(h, [('Si', 1)], 0, False, kind, vel, False, Tok('2.5', 2.5), p=4, symcell=True)
    h.apart(pc.det(d['cell']))
    r = pc.make(h, h.mod('poscar').Poscar, L)
    h.check(r.ok, 'well-formed POSCAR is parsed')
    pc.compare(h, r.value.get_dict(), d, kind[0] == 'D', (vel or 'D')[0] == 'D')


def species(h):
    """Names of species in either case and with suffixes, as in the names of POTCAR files; columns of any width."""
    a = h.join('', [h.anycase('a', 'Si'), h.choice('suffix', ['', '_pv', '.5', '_sv_GW'])])
    b = h.anycase('b', 'O')
    n = h.choice('n', [(1, 1), (2, 1)])
    L, d = pc.document(h, [('Si', n[0]), ('O', n[1])], scale=h.num('scale', 2, '0.01', 9))
    L[1] = h.join('', [L[1], h.choice('after', ['', '   2.0', ' scaling'])])
    sep = h.choice('sep', [' ', '\t', '     '])
    L[5] = h.join('', [h.choice('lead', ['', ' ']), a, sep, b])
    L[6] = sep.join(str(x) for x in n)
    d['names'] = [h.join('', [a[0].upper(), a[1:].lower()])] * n[0] + ['O'] * n[1]
    r = pc.make(h, h.mod('poscar').Poscar, L, h.choice('src', ['string', 'handler', 'path']))
    h.check(r.ok, 'well-formed POSCAR is parsed')
    pc.compare(h, r.value.get_dict(), d)


def refused(h):
    """Documents that must end in the documented exit code."""
    what = h.choice('what', ['negative scale', 'vasp 4', 'no velocity'])
    P = h.mod('poscar').Poscar
    if what == 'negative scale':
        L, d = pc.document(h, [('Si', 1)], scale=h.num('scale', 4, -9, '-0.0001'))
        code = 307
    elif what == 'vasp 4':
        L, d = pc.document(h, [('Si', 1), ('O', 1)])
        del L[5]
        code = 301
    else:
        L, d = pc.document(h, [('Si', 1), ('O', 1)])
        L += [h.choice('head', ['', 'Direct', 'other']), h.choice('bad', ['abc', 'x 0.0 0.0'])]
        code = 302
    r = pc.make(h, P, L, h.choice('src', ['string', 'handler']))
    h.check(r.kind == 'exit' and r.code == code, f'{what}: documented exit code')


def harnesses(tier):
    g = pc.GROUPS if tier != 'quick' else [pc.GROUPS[i] for i in (0, 3, 5, 6)]
    return [('full', full(g)), ('many', full(pc.MANY, [VARIANTS[i] for i in (0, 1, 6)])), ('layout', layout), ('cell', symbolic_cell), ('species', species), ('refused', refused)]
