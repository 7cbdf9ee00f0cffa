"""POSCAR: writing and re-reading preserves cell, sites, order, flags and velocities up to the printed precision."""
from symex.harness import Tok

from . import pc

BOUNDS = ('1-3 sites (quick) / 1-4 and 12 in several groupings including separated groups of one species, from a dictionary of dictionaries, '
          'of Site objects or from text, direct and cartesian input and output, conserve_order on and off, velocities, predictors '
          'and flags in all combinations, precisions 3, 6, 9 and the default, string, path and handler; numbers up to 1e7, long species names, names that begin alike; coordinates and cell symbolic')
ASSUMPTIONS = ['velocities and predictors are given for all sites or none']

# determinants 1 and -8: cartesian coordinates on a decimal grid are direct ones on a (finer) decimal grid
CELLS = [[[1, 0.5, 0], [0, 1, 0.5], [0.5, 0, 0.875]], [[0, 2, 1], [2, 1, 0], [1, 0, 1.75]]]
ORDERS = [['Si'], ['Si', 'O'], ['S', 'Si', 'S'], ['Si', 'Si', 'O'], ['H', 'O', 'Si'], ['O', 'O', 'H']]
MORE = [['Si', 'S', 'Si', 'Sb'], ['O', 'O', 'H', 'Si'], ['Si', 'Si', 'Si', 'H'], ['H', 'Si', 'Si', 'O']]
MANY = [['Si'] * 12, ['H', 'C'] + ['O'] * 10, ['Si', 'O'] * 6, ['C', 'H', 'O', 'N', 'Si', 'Al', 'Fe', 'Ga', 'As', 'In', 'P', 'B']]
OPTS = ['plain', 'selective', 'velocities', 'predictors', 'velocities predictors', 'selective velocities predictors']


def rvec(h, name, p, hi=9):
    return [h.real(f'{name}_{j}', p, -hi, hi) for j in range(3)]


def arr_of(h):
    if h.symbolic:
        from symex import arr
        return arr.NP.array
    import numpy
    return numpy.array


def contents(h, names, opt, p, cell=0, prefix=''):
    d = {'names': names, 'cell': [[float(x) for x in r] for r in CELLS[cell]]}
    n = len(names)
    d['pos'] = [rvec(h, f'{prefix}p{i}', p) for i in range(n)]
    d['flags'] = [pc.FLAGS[(2 * i + 1) % len(pc.FLAGS)] if 'selective' in opt else [True] * 3 for i in range(n)]
    d['vel'] = [rvec(h, f'{prefix}v{i}', p) for i in range(n)] if 'velocities' in opt else None
    d['pred'] = [rvec(h, f'{prefix}q{i}', p) for i in range(n)] if 'predictors' in opt else None
    return d


def site(h, P, d, i, form, direct=True):
    A = arr_of(h)
    v = A(d['vel'][i]) if d['vel'] else None
    q = A(d['pred'][i]) if d['pred'] else None
    if form == 'dicts':
        return {'specie': d['names'][i], 'position': A(d['pos'][i]), 'selective': list(d['flags'][i]), 'velocities': v,
                'predictors': q, 'direct': direct}
    return P.Site(d['names'][i], A(d['pos'][i]), list(d['flags'][i]), v, q, direct)


def build(h, d, form, comment, direct=True, **kw):
    P = h.mod('poscar')
    p = {'comment': comment, 'unitcell': arr_of(h)(d['cell']), 'sites': [site(h, P, d, i, form, direct)
                                                                          for i in range(len(d['names']))]}
    return h.run(lambda: P.Poscar(poscar_dict=p, logger=h.logger, **kw))


def order(names, conserve):
    """Indices of the sites in the order they are written."""
    if conserve:
        return list(range(len(names)))
    uniq = sorted(dict.fromkeys(names), key=names.count)
    return [i for u in uniq for i, n in enumerate(names) if n == u]


def text_of(h, k, out):
    if out == 'string':
        w = h.run(k.get_string)
        h.check(w.ok, 'get_string succeeds')
        return w.value
    if out == 'path':
        p = h.outpath()
        h.check(h.run(lambda: k.write(file_path=p)).ok, 'write to a path succeeds')
        return h.contents(p)
    f = h.file('')
    h.check(h.run(lambda: k.write(file_handler=f)).ok, 'write to a handler succeeds')
    return f.getvalue()


def compare(h, g, d, idx, prec, exact, what, direct=True, vdirect=True):
    """Content of a parsed POSCAR against d with the sites in the order idx."""
    tol = (None if h.symbolic else 1e-6) if exact else 0.5000001 * 10.0**-prec
    h.eq(g['unitcell'], d['cell'], f'{what}: cell', tol)
    h.eq([s['specie'] for s in g['sites']], [d['names'][i].capitalize() for i in idx], f'{what}: species and order')
    for s, i in zip(g['sites'], idx):
        h.check(s['direct'] is True, f'{what}: direct')
        h.eq(list(s['selective']), d['flags'][i], f'{what}: selective flags')
        for key, dk, dr in (('position', 'pos', direct), ('velocities', 'vel', vdirect), ('predictors', 'pred', True)):
            if d[dk] is None:
                h.check(s[key] is None, f'{what}: no {key}')
                continue
            h.check(s[key] is not None, f'{what}: {key} kept')
            x = [s[key][j] for j in range(3)]
            h.eq(x if dr else pc.combine(x, d['cell']), d[dk][i], f'{what}: {key}', tol)


def formula(names, conserve):
    """The composition as the comment line gives it."""
    runs = []
    for i in order(names, conserve):
        if runs and runs[-1][0] == names[i]:
            runs[-1][1] += 1
        else:
            runs.append([names[i], 1])
    return ''.join(u.capitalize() + (str(n) if n > 1 else '') for u, n in runs)


def trip(orders, opts=OPTS, forms=('dicts', 'Sites')):
    def har(h):
        names = h.choice('names', orders)
        opt = h.choice('opt', opts)
        form = h.choice('form', list(forms))
        conserve = h.choice('conserve', [False, True])
        wd = h.choice('write_direct', [True, False])
        direct = h.choice('direct', [True, False])
        n = OPTS.index(opt) + len(names) + conserve
        out = ['string', 'path', 'handler'][n % 3]
        comment = [None, 'my cell, 2 Å', '', 'Compound: X.'][(n // 3 + len(form)) % 4]
        d = contents(h, names, opt, 4, n % 2)
        r = build(h, d, form, comment, direct, conserve_order=conserve, write_direct=wd)
        h.check(r.ok, 'valid dictionary accepted')
        same = list(range(len(names)))
        compare(h, r.value.get_dict(), d, same, 12, True, 'dictionary', direct, direct)
        text = text_of(h, r.value, out)
        P = h.mod('poscar').Poscar
        k = h.run(lambda: P(poscar_string=text, logger=h.logger, conserve_order=conserve, write_direct=wd))
        h.check(k.ok, 'what was written is parsed again')
        idx = order(names, conserve)
        compare(h, k.value.get_dict(), d, idx, 12, True, 'round trip', direct, direct)
        text2 = text_of(h, k.value, 'string')
        if wd and direct:
            h.eq(text2, text_of(h, h.run(lambda: P(poscar_string=text2, logger=h.logger, conserve_order=conserve)).value,
                                'string'), 'further round trips change nothing in the text')
        h.check(formula(names, conserve) in k.value.get('comment'), 'the comment names the composition')
        if comment:
            h.check(comment in k.value.get('comment'), 'the comment is kept')
        if n % 3 == 0:  # another composition under the comment written for this one
            d3 = contents(h, names + ['Ga'], 'plain', 4, 0, 'x')
            r3 = build(h, d3, form, k.value.get('comment'), conserve_order=conserve)
            k3 = h.run(lambda: P(poscar_string=text_of(h, r3.value, 'string'), logger=h.logger))
            h.check(formula(names + ['Ga'], conserve) in k3.value.get('comment'), 'the comment names the composition')
            compare(h, k3.value.get_dict(), d3, order(names + ['Ga'], conserve), 12, True, 'other composition')
        compare(h, r.value.get_dict(), d, same, 12, True, 'after writing', direct, direct)
    return har


def wide(h):
    """Values and names that do not fit the columns they are usually printed in."""
    names = h.choice('names', [['Si_sv_GW', 'O', 'Si_sv_GW'], ['O_s', 'h.25', 'FE_PV_2']])
    opt = h.choice('opt', ['plain', 'selective velocities predictors'])
    conserve = h.choice('conserve', [False, True])
    kw = h.choice('prec', [{}, {'prec': 6}, {'prec': 14}])
    d = contents(h, names, opt, 4)
    hi = 10**7
    for key in ('pos', 'vel', 'pred'):
        if d[key] is not None:
            d[key] = [rvec(h, f'{key}w{i}', 4, hi) for i in range(len(names))]
    d['cell'] = [[h.real(f'c{i}{j}', 3, -hi, hi) for j in range(3)] for i in range(3)]
    r = build(h, d, 'Sites', 'c', conserve_order=conserve, **kw)
    h.check(r.ok, 'valid dictionary accepted')
    text = text_of(h, r.value, h.choice('out', ['string', 'path', 'handler']))
    P = h.mod('poscar').Poscar
    k = h.run(lambda: P(poscar_string=text, logger=h.logger))
    h.check(k.ok, 'what was written is parsed again')
    compare(h, k.value.get_dict(), d, order(names, conserve), 12, True, 'wide values')


def precision(h):
    """Coordinates with more digits than are printed."""
    prec = h.choice('prec', [3, 6, 9])
    opt = h.choice('opt', ['plain', 'selective velocities predictors'])
    names = ['O', 'H']
    d = contents(h, names, opt, 11)
    r = build(h, d, 'Sites', 'c', prec=prec, conserve_order=True)
    h.check(r.ok, 'valid dictionary accepted')
    text = text_of(h, r.value, h.choice('out', ['string', 'path', 'handler']))
    P = h.mod('poscar').Poscar
    k = h.run(lambda: P(poscar_string=text, logger=h.logger))
    h.check(k.ok, 'what was written is parsed again')
    compare(h, k.value.get_dict(), d, [0, 1], prec, False, f'{prec} decimals')


def from_text(h):
    """POSCAR files as VASP writes them survive."""
    group = h.choice('group', [pc.GROUPS[i] for i in (2, 3, 5)])
    opt = h.choice('opt', OPTS)
    kind = h.choice('kind', ['Direct', 'Cartesian'])
    conserve = h.choice('conserve', [False, True])
    scale = h.choice('scale', [Tok('1.0', 1.0), Tok('2.5', 2.5)])
    src = h.choice('src', ['string', 'handler'])
    L, t = pc.document(h, group, CELLS[1], 'selective' in opt, kind, 'Direct' if 'vel' in opt else None, 'pred' in opt, scale, p=4)
    P = h.mod('poscar').Poscar
    r = pc.make(h, P, L, src, conserve_order=conserve)
    h.check(r.ok, 'well-formed POSCAR is parsed')
    text = text_of(h, r.value, 'path' if conserve else 'handler')
    k = h.run(lambda: P(poscar_string=text, logger=h.logger))
    h.check(k.ok, 'what was written is parsed again')
    a, b = r.value.get_dict(), k.value.get_dict()
    idx = order(t['names'], conserve)
    h.eq(b['unitcell'], a['unitcell'], 'cell', None if h.symbolic else 1e-6)
    h.eq([s['specie'] for s in b['sites']], [t['names'][i] for i in idx], 'species and order')
    tol = None if h.symbolic else 1e-6
    for s, i in zip(b['sites'], idx):
        for key in ('position', 'velocities', 'predictors'):
            if a['sites'][i][key] is None:
                h.check(s[key] is None, f'no {key}')
            else:
                h.eq(s[key], a['sites'][i][key], key, tol)
        h.eq(list(s['selective']), list(a['sites'][i]['selective']), 'selective flags')


def harnesses(tier):
    return [('trip', trip(ORDERS if tier == 'quick' else ORDERS + MORE)), ('many', trip(MANY, ['selective', 'velocities predictors'], ('Sites', ))), ('wide', wide), ('precision', precision), ('text', from_text)]
