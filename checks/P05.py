"""KPOINTS: writing and re-reading preserves the content; edits do exactly what they say, and what is written reflects them."""
from . import kp
from .P07 import arr_of

BOUNDS = ('1-4, 11 and 22 points, 0-2 tetrahedra, every mode, default and other precisions, dict and file origins, string, path and '
          'handler outputs, histories of up to 2 (quick) / 3 (thorough) edits at solver-chosen points; coordinates up to 1e7; values symbolic')
ASSUMPTIONS = ['written numbers have at most 12 digits and lie on the stated grids; comments contain no #',
               'an explicit list keeps at least one point']

KEYS = ('comment', 'mode', 'num_kpoints', 'centering', 'divisions', 'shifts', 'generating_vectors', 'tetra')


def rewrite(h, k, out, K, **kw):
    """Write by one of the routes and parse what was written."""
    if out == 'string':
        w = h.run(k.get_string)
        h.check(w.ok, 'get_string succeeds')
        text = w.value
        r = h.run(lambda: K(kpoints_string=text, logger=h.logger))
    elif out == 'path':
        p = h.outpath()
        h.check(h.run(lambda: k.write(file_path=p)).ok, 'write to a path succeeds')
        r = h.run(lambda: K(file_path=p, logger=h.logger))
    else:
        import io
        f = h.file('')
        h.check(h.run(lambda: k.write(file_handler=f)).ok, 'write to a handler succeeds')
        text = f.getvalue()
        r = h.run(lambda: K(file_handler=h.file(text), logger=h.logger))
    h.check(r.ok, 'what was written is parsed again')
    return r.value


def compare(h, got, d, prec, grid, what):
    tol = None if prec >= grid else 10.0**-prec
    for key in KEYS:
        if key in ('shifts', 'generating_vectors'):
            continue
        h.eq(got[key], d[key], f'{what}: {key}')
    sh = d['shifts']
    if sh is None and d['mode'] == 'automatic':
        sh = [0.0, 0.0, 0.0]
    h.eq(got['shifts'], sh, f'{what}: shifts', tol)
    h.eq(got['generating_vectors'], d['generating_vectors'], f'{what}: generating vectors', tol)
    h.eq(got['tetra_volume'], d['tetra_volume'], f'{what}: tetrahedron volume', tol)
    pts = d['points']
    if pts is not None:
        pts = [[c, 1.0 if w is None else w, dr] for c, w, dr in pts]
    h.eq(got['points'], pts, f'{what}: points in order with weights', tol)


def vec(h, name, g, lo=-9, hi=9):
    return [h.real(f'{name}{j}', g, lo, hi) for j in range(3)]


def content(h, mode, n, g, opt):
    """A KPOINTS dictionary (points as [coordinate, weight]) with symbolic values."""
    d = dict(comment='some comment', mode=mode, num_kpoints=0, centering=None, divisions=None, shifts=None,
             generating_vectors=None, tetra=None, tetra_volume=None, points=None)
    if mode == 'explicit':
        d['num_kpoints'] = n
        d['points'] = [[vec(h, f'k{i}', g), None if opt == 'no weight' else h.real(f'w{i}', g, 0, 99), True]
                       for i in range(n)]
        if opt == 'tetra':
            nt = h.size('nt', 1, 2)
            d['tetra'] = [[h.int(f't{i}{j}', 0, 99) for j in range(5)] for i in range(nt)]
            d['tetra_volume'] = h.real('tv', g, 0, 9)
    elif mode == 'line':
        d['num_kpoints'] = h.int('nper', 1, 99)
        d['points'] = [[vec(h, f'k{i}', g), 1.0, True] for i in range(n)]
    elif opt == 'grg':
        d['centering'] = 'Reciprocal'
        d['generating_vectors'] = [vec(h, f'g{i}', g) for i in range(3)]
        d['shifts'] = vec(h, 's', g)
    else:
        d['centering'] = opt.split()[0]
        d['divisions'] = [h.int(f'd{j}', 1, 99) for j in range(3)]
        if 'shift' in opt:
            d['shifts'] = vec(h, 's', g)
    return d


def objects(h, d):
    """The dictionary the constructor wants: Kpoint objects for points."""
    m = h.mod('kpoints')
    o = dict(d)
    if d['points'] is not None:
        o['points'] = [m.Kpoint(c, w, direct=dr) for c, w, dr in d['points']]
    return o


FORMS = [('explicit', 'weight'), ('explicit', 'no weight'), ('explicit', 'tetra'), ('line', ''), ('automatic', 'grg'),
         ('automatic', 'Gamma'), ('automatic', 'Monkhorst-Pack shift'), ('automatic', 'Gamma shift')]


def from_dict(hi, many=False):
    def har(h):
        mode, opt = h.choice('form', FORMS[:4] if many else FORMS)
        n = 1
        if mode == 'explicit':
            n = 11 if many else h.size('n', 1, hi)
        elif mode == 'line':
            n = 22 if many else 2 * h.size('n', 1, hi)
        prec, g = h.choice('prec', [(None, 6)] if many else [(None, 6), (4, 3), (12, 8), (6, 8), (None, 11)])
        out = h.choice('out', ['string', 'path', 'handler'])
        cm = h.choice('comment', ['some comment'] if many else ['some comment', 'Å 中', '', None, 'a long  comment ' * 12 + '.'])
        d = content(h, mode, n, g, opt)
        d['comment'] = cm
        K = h.mod('kpoints').Kpoints
        kw = {} if prec is None else {'prec': prec}
        r = h.run(lambda: K(kpoints_dict=objects(h, d), logger=h.logger, **kw))
        h.check(r.ok, 'valid dictionary accepted')
        if cm is None:
            d['comment'] = 'No comment'
        compare(h, rewrite(h, r.value, out, K).get_dict(), d, prec or 9, g, 'round trip')
    return har


def from_file(h):
    """Parse a file, write it, parse again: same dictionary, and a third generation equals the second."""
    form = h.choice('form', ['explicit', 'tetra', 'automatic', 'shift', 'grg', 'line'])
    out = h.choice('out', ['string', 'path', 'handler'])
    if form in ('explicit', 'tetra'):
        L, d = kp.explicit(h, 2, 1 if form == 'tetra' else None, True)
    elif form in ('automatic', 'shift'):
        L, d = kp.automatic(h, 'Gamma', form == 'shift')
        d['centering'] = 'Gamma'
    elif form == 'grg':
        L, d = kp.grg(h)
    else:
        L, d = kp.line(h, 2)
    d['comment'] = 'hello'
    K = h.mod('kpoints').Kpoints
    r = kp.make(h, K, ['hello'] + L, 'handler')
    h.check(r.ok, 'well-formed KPOINTS is parsed')
    k2 = rewrite(h, r.value, out, K)
    compare(h, k2.get_dict(), d, 9, 8, 'file round trip')
    k3 = rewrite(h, k2, out, K)
    h.eq(k3.get_dict(), k2.get_dict(), 'second round trip changes nothing')


def wide(h):
    """Values that do not fit the columns they are usually printed in."""
    mode, opt = h.choice('form', FORMS)
    prec = h.choice('prec', [None, 4])
    d = content(h, mode, 2, 3, opt)
    hi = 10**7
    if d['points']:
        d['points'] = [[vec(h, f'wk{i}', 3, -hi, hi), h.real(f'ww{i}', 3, 0, hi) if mode == 'explicit' else w, dr]
                       for i, (c, w, dr) in enumerate(d['points'])]
    for key in ('divisions', ):
        if d[key]:
            d[key] = [h.int(f'w{key}{j}', 1, hi) for j in range(3)]
    if d['shifts']:
        d['shifts'] = vec(h, 'ws', 3, -hi, hi)
    if d['generating_vectors']:
        d['generating_vectors'] = [vec(h, f'wg{i}', 3, -hi, hi) for i in range(3)]
    if d['tetra']:
        d['tetra'] = [[h.int(f'wt{i}{j}', 0, hi) for j in range(5)] for i in range(len(d['tetra']))]
        d['tetra_volume'] = h.real('wtv', 3, 0, hi)
    if mode == 'line':
        d['num_kpoints'] = h.int('wn', 1, hi)
    K = h.mod('kpoints').Kpoints
    r = h.run(lambda: K(kpoints_dict=objects(h, d), logger=h.logger, **({} if prec is None else {'prec': prec})))
    h.check(r.ok, 'valid dictionary accepted')
    compare(h, rewrite(h, r.value, h.choice('out', ['string', 'path', 'handler']), K).get_dict(), d, prec or 9, 3, 'round trip')


def repeated(h):
    """One Kpoint object at several places is still one point per place, and coordinates may be arrays."""
    m = h.mod('kpoints')
    g = 6
    arr = h.choice('coordinates', [list, arr_of(h)])
    mode = h.choice('mode', ['explicit', 'line'])
    same = h.choice('same', [(0, 1), (0, 2), (1, 3), (2, 3)])
    pts = [[vec(h, f'k{i}', g), h.real(f'w{i}', g, 0, 9) if mode == 'explicit' else 1.0, True] for i in range(4)]
    objs = [m.Kpoint(arr(c), w, direct=True) for c, w, _ in pts]
    objs[same[1]] = objs[same[0]]
    pts[same[1]] = list(pts[same[0]])
    d = dict(comment='c', mode=mode, num_kpoints=4 if mode == 'explicit' else h.int('n', 1, 9), centering=None, divisions=None, shifts=None,
             generating_vectors=None, tetra=None, tetra_volume=None)
    late = h.choice('late', [True, False])
    r = h.run(lambda: m.Kpoints(kpoints_dict=dict(d, points=[m.Kpoint([0.0, 0.0, 0.0], 1.0)] if late else list(objs)), logger=h.logger))
    h.check(r.ok, 'valid dictionary accepted')
    k = r.value
    if late:
        h.check(h.run(lambda: k.modify('points', list(objs))).ok, 'edit accepted')
    op = h.choice('op', ['none', 'delete', 'point'])
    if op == 'delete' and mode == 'line':
        op = 'none'
    i = h.size('i', 0, 3)
    if op == 'delete':
        h.check(h.run(lambda: k.delete_point(i)).ok, 'edit accepted')
        del pts[i]
        d['num_kpoints'] = 3
    elif op == 'point':
        c, w = vec(h, 'n', g), h.real('nw', g, 0, 9) if mode == 'explicit' else 1.0
        h.check(h.run(lambda: k.modify('points', m.Kpoint(arr(c), w), point_number=i)).ok, 'edit accepted')
        pts[i] = [c, w, True]
    d['points'] = pts
    h.eq(k.get_dict()['points'], pts, 'repeated point')
    compare(h, rewrite(h, k, h.choice('out', ['string', 'path']), m.Kpoints).get_dict(), d, 9, g, 'written repeated point')


def edits(steps):
    def har(h):
        mode, opt = h.choice('form', FORMS[:4] + [('automatic', 'grg'), ('automatic', 'Gamma shift')])
        n = 1 if mode == 'automatic' else 3 if mode == 'explicit' else 4
        g = 6
        d = content(h, mode, n, g, opt)
        m = h.mod('kpoints')
        r = h.run(lambda: m.Kpoints(kpoints_dict=objects(h, d), logger=h.logger))
        h.check(r.ok, 'valid dictionary accepted')
        k = r.value
        ops = ['comment'] + {'explicit': ['point', 'points', 'delete', 'out of range', 'delete out of range'],
                             'line': ['point', 'points', 'num_kpoints'], 'automatic': ['shifts', 'centering']}[mode]
        if opt == 'tetra':
            ops += ['tetra', 'tetra_volume']
        if mode == 'automatic':
            ops.append('generating_vectors' if opt == 'grg' else 'divisions')
        for s in range(h.size('steps', 1, steps)):
            op = h.choice(f'op{s}', ops + ['bad tag'])
            if op == 'point':
                i = h.choice(f'i{s}', range(len(d['points'])))
                c, w = vec(h, f'n{s}', g), h.real(f'nw{s}', g, 0, 9)
                a = h.run(lambda: k.modify('points', m.Kpoint(c, w), point_number=i))
                d['points'][i] = [c, w if mode == 'explicit' else 1.0, True]
            elif op == 'points':
                nn = h.choice(f'nn{s}', [1, 2, 4] if mode == 'explicit' else [2, 6])
                new = [[vec(h, f'n{s}_{i}', g), h.real(f'nw{s}_{i}', g, 0, 9), True] for i in range(nn)]
                a = h.run(lambda: k.modify('points', [m.Kpoint(c, w) for c, w, _ in new]))
                if mode == 'line':
                    new = [[c, 1.0, dr] for c, w, dr in new]
                d['points'] = new
                if mode == 'explicit':
                    d['num_kpoints'] = nn
            elif op == 'delete':
                if len(d['points']) < 2:
                    continue
                i = h.choice(f'i{s}', range(len(d['points'])))
                a = h.run(lambda: k.delete_point(i))
                del d['points'][i]
                d['num_kpoints'] = len(d['points'])
            elif 'out of range' in op:
                i = h.int(f'i{s}', len(d['points']), 50)
                if 'delete' in op:
                    a = h.run(lambda: k.delete_point(i))
                else:
                    a = h.run(lambda: k.modify('points', m.Kpoint([0.0, 0.0, 0.0], 1.0), point_number=i))
                h.check(a.kind == 'exit' and a.code == 211, 'a point number beyond the list is refused')
                continue
            elif op == 'bad tag':
                tag = h.choice(f'tag{s}', ['foo', 'point', 'my_points', 'shift', 'tetra_volumes'])
                a = h.run(lambda: k.modify(tag, 1))
                h.check(a.kind == 'exit' and a.code == 207, 'an unknown tag is refused')
                h.check(tag not in k.get_dict(), 'an unknown tag leaves no entry')
                continue
            else:
                if op == 'comment':
                    v = f'changed {s}'
                elif op == 'num_kpoints':
                    v = h.int(f'v{s}', 1, 99)
                elif op == 'divisions':
                    v = [h.int(f'v{s}{j}', 1, 99) for j in range(3)]
                elif op == 'shifts':
                    v = vec(h, f'v{s}', g)
                elif op == 'generating_vectors':
                    v = [vec(h, f'v{s}{i}', g) for i in range(3)]
                elif op == 'centering':
                    v = 'Reciprocal' if opt == 'grg' else 'Monkhorst-Pack'
                elif op == 'tetra':
                    v = [[h.int(f'v{s}{i}{j}', 0, 99) for j in range(5)] for i in range(2)]
                else:
                    v = h.real(f'v{s}', g, 0, 9)
                a = h.run(lambda: k.modify(op, v))
                d[op] = v
            h.check(a.ok, f'edit accepted: {op}')
        got = k.get_dict()
        for key in d:
            if key != 'num_kpoints' and key != 'points':
                h.eq(got[key], d[key], f'after edits: {key}')
        pts = d['points']
        if pts is not None and mode == 'explicit':
            h.eq(got['points'], pts, 'after edits: points')
        compare(h, rewrite(h, k, 'string', m.Kpoints).get_dict(), d, 9, g, 'written after edits')
    return har


def harnesses(tier):
    q = tier == 'quick'
    return [('dict', from_dict(2 if q else 4)), ('many', from_dict(0, True)), ('wide', wide), ('file', from_file), ('repeated', repeated), ('edits', edits(2 if q else 3))]
