"""POSCAR documents shared by several checks."""
from symex.harness import Tok

NAMES = ['Si', 'O', 'H']
# a left-handed general cell and a right-handed one, nothing symmetric
CELLS = [[['1.5', '0.25', '-0.5'], ['0', '2', '0.75'], ['0.125', '-1', '3']],
         [['0.5', '2', '0'], ['1.25', '-0.75', '1'], ['0.25', '0', '2.5']]]
FLAGS = [[True, True, True], [False, True, True], [True, False, True], [True, True, False], [False, False, False],
         [True, False, False]]
# groupings of sites into the species line
GROUPS = [[('Si', 1)], [('Si', 2)], [('Si', 1), ('O', 1)], [('O', 2), ('Si', 1)], [('Si', 1), ('O', 2)],
          [('H', 1), ('O', 1), ('H', 1)], [('O', 1), ('Si', 0), ('H', 1)]]

# more than nine sites, more than nine groups
MANY = [[('Si', 11)], [('O', 1), ('Si', 10)], [('O', 12), ('H', 1)],
        [('C', 1), ('H', 1), ('O', 1), ('N', 2), ('Si', 1), ('Al', 1), ('Fe', 1), ('Ga', 1), ('As', 1), ('In', 1), ('P', 2)]]


def det(a):
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def combine(x, a):
    """The cartesian vector of direct coordinates x in the cell a."""
    return [x[0] * a[0][j] + x[1] * a[1][j] + x[2] * a[2][j] for j in range(3)]


def vec(h, name, p=8, hi=9):
    return [h.num(f'{name}_{j}', p, -hi, hi, w=p + 4) for j in range(3)]


def document(h, group, cell=0, selective=False, kind='Direct', vel=None, pred=False, scale=None, comment='a comment',
             sel='Selective dynamics', flagtext='TF', p=8, extra='', symcell=False, vkind=None):
    """Lines of a POSCAR and what they state; positions as written, with their coordinate kind."""
    names = [n for n, k in group for _ in range(k)]
    n = len(names)
    sc = scale if scale is not None else Tok('1.0', 1.0)
    if symcell:
        c = [[h.num(f'c{i}{j}', 4, -9, 9, w=14) for j in range(3)] for i in range(3)]
    else:
        c = [[Tok(str(x), float(x)) for x in r] for r in (CELLS[cell] if isinstance(cell, int) else cell)]
    d = {'comment': comment, 'names': names, 'cell': [[sc.val * x.val for x in r] for r in c], 'scale': sc.val}
    L = [comment, h.row(sc)] + [h.row(*r) for r in c]
    L += ['  ' + '  '.join(g for g, _ in group), '  ' + '  '.join(str(k) for _, k in group)]
    if selective:
        L.append(sel)
    L.append(kind)
    pos = [vec(h, f'p{i}', p) for i in range(n)]
    flags = [FLAGS[(i * 2 + 1 + len(group)) % len(FLAGS)] if selective else [True] * 3 for i in range(n)]
    for i in range(n):
        row = h.row(*pos[i])
        if selective:
            if flagtext == 'TF':
                fl = ' ' + ' '.join('T' if f else 'F' for f in flags[i])
            elif flagtext == 'tf':
                fl = '   ' + '   '.join('t' if f else 'f' for f in flags[i])
            else:
                fl = ' ' + ' '.join('.TRUE.' if f else '.FALSE.' for f in flags[i])
            row = h.join('', [row, fl])
        L.append(h.join('', [row, extra]))
    d['pos'] = [[x.val for x in q] for q in pos]
    d['flags'] = flags
    d['vel'] = d['pred'] = None
    if vel:
        L.append(vel)
        v = [vec(h, f'v{i}', p) for i in range(n)]
        L += [h.row(*x) for x in v]
        d['vel'] = [[x.val for x in q] for q in v]
    if pred:
        L.append('')
        v = [vec(h, f'q{i}', p) for i in range(n)]
        L += [h.row(*x) for x in v]
        d['pred'] = [[x.val for x in q] for q in v]
    return L, d


def make(h, P, L, src='string', trail=0, last=True, eol='\n', blank='', **kw):
    text = h.lines(L, eol) + (blank + eol) * trail if last else h.join(eol, L)
    if src == 'string':
        return h.run(lambda: P(poscar_string=text, logger=h.logger, **kw))
    if src == 'handler':
        return h.run(lambda: P(file_handler=h.file(text), logger=h.logger, **kw))
    p = h.path(text)
    return h.run(lambda: P(file_path=p, logger=h.logger, **kw))


def lists(x):
    return None if x is None else [y for y in x]


def same_point(h, got, stated, cell, scaled, direct, label):
    """got (direct coordinates) is the stated point; cartesian ones through the cell."""
    tol = None if h.symbolic else 1e-6
    if direct:
        h.eq(got, stated, label, tol)
    else:
        g = [got[0], got[1], got[2]]
        h.eq(combine(g, cell), scaled, label + ' (cartesian)', tol)


def compare(h, g, d, direct=True, vdirect=True, what='parsed'):
    """get_dict against what the document states."""
    tol = None if h.symbolic else 1e-6
    h.check(set(g) == {'comment', 'unitcell', 'sites'}, f'{what}: entries')
    h.eq(g['comment'], d['comment'], f'{what}: comment')
    h.eq(g['unitcell'], d['cell'], f'{what}: unit cell times scaling factor', tol)
    h.eq(len(g['sites']), len(d['names']), f'{what}: number of sites')
    for i, s in enumerate(g['sites']):
        h.check(set(s) == {'specie', 'position', 'selective', 'velocities', 'predictors', 'direct'}, f'{what}: site entries')
        h.eq(s['specie'], d['names'][i], f'{what}: species by site')
        h.check(s['direct'] is True, f'{what}: reported as direct')
        h.eq(lists(s['selective']), d['flags'][i], f'{what}: selective flags')
        same_point(h, s['position'], d['pos'][i], d['cell'], [d['scale'] * x for x in d['pos'][i]], direct,
                   f'{what}: position')
        if d['vel'] is None:
            h.check(s['velocities'] is None, f'{what}: no velocities')
        else:
            h.check(s['velocities'] is not None, f'{what}: has velocities')
            same_point(h, s['velocities'], d['vel'][i], d['cell'], d['vel'][i], vdirect, f'{what}: velocities')
        if d['pred'] is None:
            h.check(s['predictors'] is None, f'{what}: no predictors')
        else:
            h.check(s['predictors'] is not None, f'{what}: has predictors')
            h.eq(s['predictors'], d['pred'][i], f'{what}: predictors', tol)
