"""Arguments: exactly one source, exactly one place to write to, and nothing touched when they are refused."""
from checks import P12, P14, P15, inc, kp, pc, vx
from checks.P07 import arr_of
from checks.P17 import finish, start

BOUNDS = ('every parser with no source, with every combination of the sources it takes, and with a path that does not exist, lies in a '
          'directory that does not exist, or is a directory; write of every parser with every combination of path and handler, given or '
          'passed as None, to new and existing files; one layout per kind of file, numbers and letters symbolic')

INPUT = {'incar': 'Incar', 'kpoints': 'Kpoints', 'poscar': 'Poscar'}
OUTPUT = {'eigenval': 'Eigenval', 'doscar': 'Doscar', 'chgcar': 'Chgcar', 'outcar': 'Outcar', 'potcar': 'Potcar', 'stream': 'Stream'}


def content(h, name, tag):
    """A small file whose numbers are named after tag, and what to look at."""
    n = lambda s: tag + s
    if name == 'incar':
        v, w = h.inum(n('a'), 1, 99), h.chars(n('b'), 2, inc.LETTERS)
        return [h.join('', ['ENCUT = ', v.text]), h.join('', ['ALGO = ', w])], {'encut': v.val, 'algo': w}
    if name == 'kpoints':
        d = [h.inum(n(f'd{j}'), 1, 99) for j in range(3)]
        return ['comment', '0', 'Gamma', h.row(*d)], {'comment': 'comment', 'mode': 'automatic', 'num_kpoints': 0, 'centering': 'Gamma',
                                                      'divisions': [x.val for x in d], 'shifts': None, 'points': None, 'tetra': None,
                                                      'tetra_volume': None, 'generating_vectors': None}
    if name == 'poscar':
        x = [h.num(n(f'x{j}'), 6, -2, 2) for j in range(3)]
        return ['comment', '1.0', '2 0 0', '0 2 0', '0 0 2', 'Si', '1', 'Direct', h.row(*x)], [y.val for y in x]
    if name == 'eigenval':
        v = h.num(n('e'), 6, -999, 999, 14)
        return ['  1  1  1  1', '  1.0  1.0  1.0  1.0  1.0', '  1.0', '  CAR ', ' name', '  4  1  1', '', ' 0.0 0.0 0.0 1.0',
                h.join('', ['    1', v.text])], v.val
    if name == 'doscar':
        v = h.enum(n('t'), 4, 1)
        head = '   9.0   -9.0    1   0.5   1.0'
        return ['  1  1  0  0', '  1.0  1.0  1.0  1.0  1.0', '  1.0', '  CAR ', ' name', head, h.row('   0.0', v, '  1.0')], v.val
    if name == 'chgcar':
        v = [h.enum(n(f'v{i}'), 5, 1) for i in range(2)]
        return ['comment', '1.0', '1.0 0 0', '0 1.0 0', '0 0 1.0', '   Si', '   1', 'Direct', ' 0 0 0', '', '   1   1   2', h.row(*v)], \
            [x.val for x in v]
    if name == 'outcar':
        v = h.inum(n('nelm'), 1, 99, 7)
        return [h.join('', ['   NELM   =', v.text, ';   NELMIN=  2']), '   NSW    =   5  number of steps', P12.iteration(1, 1)], v.val
    if name == 'potcar':
        v = h.num(n('x'), 3, 1, 99, 9)
        t = P14.textof(P14.defaults())
        t['ENMAX'] = v.text
        return P14.wrap(P14.document(h, t)), v.val
    c = h.char(n('c'), 'abE')
    return [P15.START, h.join('', [' ', c, 'DWAV: internal error'])], c


def seen(h, name, o):
    """The part of the object that shows which content it came from."""
    if name == 'incar':
        return o.get_dict()
    if name == 'kpoints':
        return o.get_dict()
    if name == 'poscar':
        return o.get_dict()['sites'][0]['position']
    if name == 'eigenval':
        return o.get_eigenvalues()[0][0][0]
    if name == 'doscar':
        return o.get_dos()['total'][0]
    if name == 'chgcar':
        return [o.charge_density[0][0][0], o.charge_density[1][0][0]]
    if name == 'outcar':
        return o.get_run_status()['nelm']
    if name == 'potcar':
        return o.enmax
    return None


def agrees(h, name, o, want, label):
    if name == 'stream':
        h.eq(P15.names(o), ['edwav'] if h.true(want == 'E') else [], label)
    else:
        g = seen(h, name, o)
        h.eq({k: g.get(k) for k in want} if isinstance(want, dict) else g, want, label)


def refused(h, r, codes, label):
    h.check(r.kind == 'exit' and r.code in codes, label)


def given(h):
    """Every combination of sources of the input files."""
    name = h.choice('name', list(INPUT))
    use = [h.choice(s, [False, True]) for s in ('string', 'dict', 'path', 'handler')]
    K = getattr(h.mod(name), INPUT[name])
    kw, want = {'logger': h.logger}, None
    if use[0]:
        L, want = content(h, name, 's')
        kw[name + '_string'] = h.choice('empty', [h.lines(L), '']) if sum(use) > 1 else h.lines(L)
    if use[1]:
        want = None
        v = h.int('dv', 1, 99)
        if name == 'incar':
            d, w = {'ENCUT': v}, {'encut': v}
        elif name == 'kpoints':
            d = {'comment': 'c', 'mode': 'automatic', 'num_kpoints': 0, 'centering': 'Gamma', 'divisions': [v, 2, 3], 'shifts': [0.0, 0.0, 0.0],
                 'points': None, 'tetra': None, 'tetra_volume': None, 'generating_vectors': None}
            w = {'divisions': [v, 2, 3]}
        else:
            S = h.mod('poscar').Site
            x = [h.real(f'dx{j}', 6, -2, 2) for j in range(3)]
            d = {'comment': 'c', 'unitcell': arr_of(h)([[2.0, 0, 0], [0, 2.0, 0], [0, 0, 2.0]]), 'sites': [S('Si', arr_of(h)(x))]}
            w = x
        kw[name + '_dict'], want = d, w
    if use[2]:
        L, want = content(h, name, 'p')
        kw['file_path'] = h.path(h.lines(L))
    if use[3]:
        L, want = content(h, name, 'h')
        kw['file_handler'] = h.file(h.lines(L))
    r = h.run(lambda: K(**kw))
    if sum(use) == 0 or (use[0] or use[1]) and sum(use) > 1:
        refused(h, r, (10, ), 'no source, or a string or dictionary with another one, is refused')
        return
    h.check(r.ok, 'one source is accepted')
    # the handler is the one read when there is a path too
    agrees(h, name, r.value, want, 'the content of the source')
    if use[3]:
        h.check(not kw['file_handler'].closed, 'a handler is left open')


def files(h):
    """The parsers of output files: nothing, path, handler, both."""
    name = h.choice('name', list(OUTPUT))
    use = h.choice('use', ['nothing', 'path', 'handler', 'both'])
    K = getattr(h.mod(name), OUTPUT[name])
    kw, want = {'logger': h.logger}, None
    if use in ('path', 'both'):
        L, want = content(h, name, 'p')
        kw['file_path'] = h.path(h.lines(L))
    if use in ('handler', 'both'):
        L, want = content(h, name, 'h')
        kw['file_handler'] = h.file(h.lines(L))
    r = h.run(lambda: K(**kw))
    if use == 'nothing':
        if name == 'potcar':
            h.check(r.kind == 'exc' and r.exc == 'ValueError', 'no source is a ValueError')
        else:
            refused(h, r, (10, ), 'no source is refused')
        return
    h.check(r.ok, 'one source is accepted')
    agrees(h, name, r.value, want, 'the content of the source')
    if 'file_handler' in kw:
        h.check(not kw['file_handler'].closed, 'a handler is left open')


def vasprun(h):
    use = h.choice('use', ['nothing', 'path', 'handler', 'both', 'missing', 'absent', 'directory'])
    event = h.choice('event', [False, True])
    X = h.mod('vasprun').Xml
    if use in ('path', 'handler', 'both'):
        docs = []
        for t in ('kp', 'kh'):
            d = vx.Doc(h, ('force' + t, ))
            start(h, d, 1, 1, ['Si'], 1, True)
            e = d.varray(2, 'forces', 'force' + t, 1, 3)
            finish(d, 1)
            docs.append((d.text(), e))
        kw = {'logger': h.logger, 'event': event}
        if use != 'handler':
            kw['file_path'] = h.xml(docs[0][0], 'path')
        if use != 'path':
            kw['file_handler'] = h.xml(docs[1][0], 'handler')
        r = h.run(lambda: X(**kw))
        h.check(r.ok, 'one source is accepted')
        want = docs[use != 'path'][1]
        h.eq(r.value.get_forces('last'), want, 'the content of the source')
        return
    if use == 'nothing':
        r = h.run(lambda: X(logger=h.logger, event=event))
        return refused(h, r, (510, 10), 'no source is refused')
    p = h.badpath(use)
    r = h.run(lambda: X(file_path=p, logger=h.logger, event=event))
    refused(h, r, (14, 508), 'a path that can not be opened is refused')


def bad(h):
    names = dict(INPUT, **OUTPUT)
    name = h.choice('name', list(names))
    K = getattr(h.mod(name), names[name])
    p = h.badpath(h.choice('bad', ['missing', 'absent', 'directory']))
    r = h.run(lambda: K(file_path=p, logger=h.logger))
    refused(h, r, (14, ), 'a path that can not be opened is refused')


def write(h):
    """write of the input files."""
    name = h.choice('name', list(INPUT))
    L, want = content(h, name, 's')
    K = getattr(h.mod(name), INPUT[name])
    r = h.run(lambda: K(**{name + '_string': h.lines(L), 'logger': h.logger}))
    h.check(r.ok, 'accepted')
    o = r.value
    text = o.get_string()
    old = h.join('', ['old ', h.chars('old', 2, 'ab')] + ['\nmore of it'] * 20)
    how = h.choice('how', ['new file', 'existing file', 'handler', 'appended', 'neither', 'both', 'both, handler None', 'both, path None',
                           'both, new file', 'missing', 'directory'])
    if how in ('new file', 'existing file'):
        p = h.outpath() if how == 'new file' else h.path(old)
        w = h.run(lambda: o.write(file_path=p))
        h.check(w.ok, 'written')
        h.eq(h.contents(p), text, 'the complete content and nothing else')
    elif how in ('handler', 'appended'):
        f = h.file('')
        if how == 'appended':
            f.write('before\n')
        w = h.run(lambda: o.write(file_handler=f))
        h.check(w.ok and not f.closed, 'written, and the handler left open')
        h.eq(f.getvalue(), h.join('', ['before\n' if how == 'appended' else '', text]), 'the complete content and nothing else')
    elif how in ('missing', 'directory'):
        p = h.badpath(how)
        w = h.run(lambda: o.write(file_path=p))
        refused(h, w, (14, ), 'a path that can not be opened is refused')
    else:
        p, f = h.path(old), h.file('')
        if how == 'both, new file':
            p = h.outpath()
        kw = {} if how == 'neither' else {'file_path': None if 'path None' in how else p, 'file_handler': None if 'handler None' in how else f}
        w = h.run(lambda: o.write(**kw))
        refused(h, w, (10, ), 'neither or both is refused')
        h.eq(h.contents(p), None if how == 'both, new file' else old, 'no file is touched')
        h.eq(f.getvalue(), '', 'no handler is written to')
    agrees(h, name, o, want, 'the object is as before')


def unsupported(h):
    """write of the output files is not supported and touches nothing."""
    name = h.choice('name', list(OUTPUT) + ['vasprun'])
    if name == 'vasprun':
        d = vx.Doc(h)
        start(h, d, 1, 1, ['Si'], 1, True)
        d.energies(2, 'final')
        finish(d, 1)
        r = vx.parse(h, d)
    else:
        L, _ = content(h, name, 's')
        K = getattr(h.mod(name), OUTPUT[name])
        r = h.run(lambda: K(file_handler=h.file(h.lines(L)), logger=h.logger))
    h.check(r.ok, 'accepted')
    how = h.choice('how', ['new file', 'existing file', 'handler'])
    old = h.join('', ['old ', h.chars('old', 2, 'ab'), '\n'])
    p = h.path(old) if how == 'existing file' else h.outpath()
    f = h.file('')
    w = h.run(lambda: r.value.write(**({'file_handler': f} if how == 'handler' else {'file_path': p})))
    h.check(w.kind == 'exc' and w.exc == 'NotImplementedError', 'not supported')
    h.eq(h.contents(p), old if how == 'existing file' else None, 'no file is touched')
    h.eq(f.getvalue(), '', 'no handler is written to')


def harnesses(tier):
    return [(f.__name__, f) for f in (given, files, vasprun, bad, write, unsupported)]
