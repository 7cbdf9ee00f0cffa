"""POSCAR edits: modify and delete change exactly what they name; construction from a dictionary reports it unchanged."""
from . import pc
from .P07 import CELLS, arr_of, build, compare, contents, order, rvec, site, text_of

BOUNDS = ('all histories of up to 2 (quick) / 3 (thorough) edits (comment, unit cell, all sites, one site, delete) on 4 groupings '
          'of species built from a dictionary, Site objects or text; every refused kind of argument at every point; values '
          'symbolic')
ASSUMPTIONS = ['site numbers are not negative', 'edited sites are in direct coordinates', 'at least one site is left']


def build_text(h, d, **kw):
    """The same content by way of a text (grouped names only)."""
    P = h.mod('poscar').Poscar
    L = ['old', ' 1.0'] + [h.join('', ['  '.join(f'{x}' for x in r)]) for r in d['cell']]
    L += ['  '.join(d['names']), '  '.join('1' for _ in d['names']), 'Direct']
    d['pos'] = []
    for i in range(len(d['names'])):
        q = [h.num(f't{i}_{j}', 4, -9, 9) for j in range(3)]
        L.append(h.row(*q))
        d['pos'].append([x.val for x in q])
    return h.run(lambda: P(poscar_string=h.lines(L), logger=h.logger, **kw))


def history(steps):
    def har(h):
        names = h.choice('names', [['Si', 'O'], ['O', 'Si', 'O'], ['H', 'O', 'Si']])
        start = h.choice('start', ['dicts', 'Sites', 'text'])
        conserve = len(names) == 3
        opt = 'selective' if start == 'Sites' else 'plain'
        d = {'names': names, 'cell': CELLS[0]} if start == 'text' else contents(h, names, opt, 4)
        if start == 'text':
            r = build_text(h, d, conserve_order=conserve)
            d.update(flags=[[True] * 3] * len(names), vel=None, pred=None)
        else:
            r = build(h, d, start, 'old', conserve_order=conserve)
        h.check(r.ok, 'valid start accepted')
        k = r.value
        P = h.mod('poscar')
        comment = 'old'
        d = {x: (list(y) if isinstance(y, list) else y) for x, y in d.items()}
        for s in range(h.size('steps', 1, steps)):
            n = len(d['names'])
            op = h.choice(f'op{s}', ['comment', 'unitcell', 'sites', 'site', 'delete'])
            if op == 'comment':
                comment = h.choice(f'c{s}', ['new', '', 'new # text'])
                a = h.run(lambda: k.modify('comment', comment))
            elif op == 'unitcell':
                c = [rvec(h, f'a{s}_{i}', 4) for i in range(3)]
                a = h.run(lambda: k.modify('unitcell', arr_of(h)(c)))
                d['cell'] = c
            elif op == 'sites':
                e = contents(h, h.choice(f'n{s}', [['Si'], ['O', 'H', 'O']]), 'selective', 4, 0, f'n{s}')
                a = h.run(lambda: k.modify('sites', [site(h, P, e, i, 'Sites') for i in range(len(e['names']))]))
                e['cell'] = d['cell']
                d = e
            elif op == 'site':
                i = h.size(f'i{s}', 0, n - 1)
                e = contents(h, [h.choice(f'sp{s}', ['O', 'al'])], 'selective', 4, 0, f's{s}')
                a = h.run(lambda: k.modify('sites', site(h, P, e, 0, 'Sites'), i))
                for key in ('names', 'pos', 'flags'):
                    d[key][i] = e[key][0]
            else:
                if n == 1:
                    continue
                i = h.size(f'i{s}', 0, n - 1)
                a = h.run(lambda: k.delete_site(i))
                for key in ('names', 'pos', 'flags'):
                    del d[key][i]
            h.check(a.ok, 'edit accepted')
        g = h.run(k.get_dict)
        h.check(g.ok, 'get_dict succeeds after edits')
        h.eq(g.value['comment'], comment, 'comment after edits')
        h.check(set(g.value) == {'comment', 'unitcell', 'sites'}, 'no other entries')
        compare(h, g.value, d, list(range(len(d['names']))), 12, True, 'after edits')
        h.eq(k.get('comment'), comment, 'get after edits')
        text = text_of(h, k, h.choice('out', ['string', 'path', 'handler']) if len(d['names']) == 2 else 'string')
        k2 = h.run(lambda: P.Poscar(poscar_string=text, logger=h.logger))
        h.check(k2.ok, 'what was written after edits is parsed')
        compare(h, k2.value.get_dict(), d, order(d['names'], conserve), 12, True, 'written after edits')
    return har


def repeated(h):
    """One Site object at several places is still one site per place."""
    P = h.mod('poscar')
    names = h.choice('names', [['Si', 'Si', 'O'], ['Si', 'O', 'Si'], ['O', 'Si', 'Si', 'H']])
    d = contents(h, names, 'selective', 4)
    a, b = [i for i, x in enumerate(names) if x == 'Si']
    for key in ('pos', 'flags'):
        d[key][b] = d[key][a]
    sites = [site(h, P, d, i, 'Sites') for i in range(len(names))]
    sites[b] = sites[a]
    late = h.choice('late', [True, False])
    start = sites[:1] if late else sites
    r = h.run(lambda: P.Poscar(poscar_dict={'comment': 'old', 'unitcell': arr_of(h)(d['cell']), 'sites': list(start)},
                               conserve_order=True, logger=h.logger))
    h.check(r.ok, 'valid start accepted')
    k = r.value
    if late:
        h.check(h.run(lambda: k.modify('sites', list(sites))).ok, 'edit accepted')
    d = {x: (list(y) if isinstance(y, list) else y) for x, y in d.items()}
    op = h.choice('op', ['none', 'delete', 'site', 'unitcell'])
    i = h.size('i', 0, len(names) - 1)
    if op == 'delete':
        e = h.run(lambda: k.delete_site(i))
        for key in ('names', 'pos', 'flags'):
            del d[key][i]
    elif op == 'site':
        n = contents(h, ['Al'], 'selective', 4, 0, 'n')
        e = h.run(lambda: k.modify('sites', site(h, P, n, 0, 'Sites'), i))
        for key in ('names', 'pos', 'flags'):
            d[key][i] = n[key][0]
    else:
        e = None
        if op == 'unitcell':
            d['cell'] = [rvec(h, f'a{j}', 4) for j in range(3)]
            e = h.run(lambda: k.modify('unitcell', arr_of(h)(d['cell'])))
    h.check(e is None or e.ok, 'edit accepted')
    compare(h, k.get_dict(), d, list(range(len(d['names']))), 12, True, 'repeated site')
    k2 = h.run(lambda: P.Poscar(poscar_string=text_of(h, k, 'string'), logger=h.logger))
    h.check(k2.ok, 'what was written is parsed')
    compare(h, k2.value.get_dict(), d, list(range(len(d['names']))), 12, True, 'written repeated site')


def cartesian(h):
    """A site in cartesian coordinates replaces another: reported as it was given; it cannot be written."""
    P = h.mod('poscar')
    names = ['Si', 'O', 'H']
    d = contents(h, names, 'selective velocities', 4)
    r = build(h, d, h.choice('form', ['dicts', 'Sites']), 'old')
    h.check(r.ok, 'valid start accepted')
    k = r.value
    i = h.size('i', 0, 2)
    e = contents(h, ['Al'], 'selective velocities', 4, 0, 'n')
    s = P.Site('Al', arr_of(h)(e['pos'][0]), selective=e['flags'][0], velocities=arr_of(h)(e['vel'][0]), direct=False)
    every = h.choice('every', [False, True])
    if every:
        a = h.run(lambda: k.modify('sites', [s]))
        d = {**e, 'cell': d['cell']}
        i = 0
    else:
        a = h.run(lambda: k.modify('sites', s, i))
        d = {x: (list(y) if isinstance(y, list) else y) for x, y in d.items()}
        for key in ('names', 'pos', 'flags', 'vel'):
            d[key][i] = e[key][0]
    h.check(a.ok, 'edit accepted')
    for ask in range(2):
        g = h.run(k.get_dict)
        h.check(g.ok, 'get_dict succeeds after edits')
        for j, got in enumerate(g.value['sites']):
            h.check(got['direct'] is (j != i), 'kind of coordinates as given')
            h.eq(got['specie'], d['names'][j], 'species')
            h.eq(got['position'], d['pos'][j], 'position as given')
            h.eq(got['velocities'], d['vel'][j], 'velocities as given')
            h.eq(list(got['selective']), d['flags'][j], 'selective flags as given')
        w = h.run(k.get_string)
        h.check(w.kind == 'exit' and w.code == 306, 'cartesian sites are not written as direct ones')


def refused(h):
    """Edits that must end in the documented exit code and leave the object as it was."""
    names = ['Si', 'O']
    d = contents(h, names, 'plain', 4)
    r = build(h, d, 'Sites', 'old')
    h.check(r.ok, 'valid start accepted')
    k = r.value
    P = h.mod('poscar')
    Q = P.Poscar
    new = P.Site('H', arr_of(h)(rvec(h, 'new', 4)))
    what = h.choice('what', ['number', 'delete number', 'tag', 'not a site', 'not a list', 'not an array', 'wrong shape',
                             'not a string', 'number not an integer', 'delete not an integer'])
    i = h.int('i', 2, 50)
    f, code = {
        'number': (lambda: k.modify('sites', new, i), 304),
        'delete number': (lambda: k.delete_site(i), 304),
        'tag': (lambda: k.modify(tag, 'x'), 305),
        'not a site': (lambda: k.modify('sites', [1, 2, 3], 0), 13),
        'not a list': (lambda: k.modify('sites', new), 13),
        'not an array': (lambda: k.modify('unitcell', [[1, 0, 0], [0, 1, 0], [0, 0, 1]]), 13),
        'wrong shape': (lambda: k.modify('unitcell', arr_of(h)([[1.0, 0, 0], [0, 1, 0]])), 13),
        'not a string': (lambda: k.modify('comment', 3), 13),
        'number not an integer': (lambda: k.modify('sites', new, bad), 13),
        'delete not an integer': (lambda: k.delete_site(bad), 13)}[what]
    tag = h.choice('tag', ['cell', 'site', 'sites2', 'Comment', '']) if what == 'tag' else None
    bad = h.choice('bad', ['0', 0.0, 1.5, [0]]) if 'integer' in what else None
    a = h.run(f)
    h.check(a.kind == 'exit' and a.code == code, f'{what}: documented exit code')
    g = k.get_dict()
    h.eq(g['comment'], 'old', 'refused edit leaves the comment')
    compare(h, g, d, [0, 1], 12, True, 'refused edit leaves the content')


def dictionaries(h):
    """Construction: missing or wrong entries are refused, optional ones are optional."""
    P = h.mod('poscar')
    what = h.choice('what', ['no comment given', 'no comment key', 'no unitcell', 'unitcell list', 'sites tuple', 'site defaults',
                             'cartesian dicts', 'cartesian Sites'])
    direct = 'cartesian' not in what
    d = contents(h, ['Si', 'O'], 'plain' if direct else 'selective velocities', 4)
    c = {'comment': None, 'unitcell': arr_of(h)(d['cell']), 'sites': [site(h, P, d, i, 'Sites') for i in range(2)]}
    Q = P.Poscar
    if what == 'no comment key':
        del c['comment']
    elif what == 'no unitcell':
        del c['unitcell']
    elif what == 'unitcell list':
        c['unitcell'] = d['cell']
    elif what == 'sites tuple':
        c['comment'] = 4
    elif what == 'site defaults':
        c['sites'] = [P.Site(d['names'][i].upper(), arr_of(h)(d['pos'][i])) for i in range(2)]
    elif not direct:
        c['sites'] = [site(h, P, d, i, what.split()[1], False) for i in range(2)]
    r = h.run(lambda: Q(poscar_dict=c, logger=h.logger))
    if what in ('no comment key', 'no unitcell'):
        h.check(r.kind == 'exit' and r.code == 12, f'{what}: documented exit code')
    elif what in ('unitcell list', 'sites tuple'):
        h.check(r.kind == 'exit' and r.code == 13, f'{what}: documented exit code')
    else:
        h.check(r.ok, 'valid dictionary accepted')
        compare(h, r.value.get_dict(), d, [0, 1], 12, True, 'dictionary', direct, direct)
        h.check(r.value.get('comment') is None, 'no comment')
        t = text_of(h, r.value, 'string')
        k = h.run(lambda: Q(poscar_string=t, logger=h.logger))
        compare(h, k.value.get_dict(), d, [0, 1], 12, True, 'written', direct, direct)


def harnesses(tier):
    return [('history', history(2 if tier == 'quick' else 3)), ('cartesian', cartesian), ('repeated', repeated), ('refused', refused), ('dictionaries', dictionaries)]
