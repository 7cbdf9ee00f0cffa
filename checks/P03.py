"""INCAR edits: after any sequence of modify and delete, get, get_dict and the written text agree with the edits."""
from . import inc
from .P02 import reread, same, typed

BOUNDS = ('all histories of up to 2 (quick) / 3 (thorough) operations over modify (4 kinds of values, with or without a '
          'comment) and delete on present and absent tags in lower and upper case, also of SYSTEM, MAGMOM and M_CONSTR; values symbolic')

TAGS = ['encut', 'algo', 'lreal']


def history(steps):
    def har(h):
        I = h.mod('incar').Incar
        v0, v1 = h.int('e0', 1, 999), h.chars('a0', 2, inc.LETTERS)
        start = h.choice('start', ['dict', 'string'])
        if start == 'dict':
            r = h.run(lambda: I(incar_dict={'ENCUT': v0, 'algo': v1}, logger=h.logger))
            com = {'encut': None, 'algo': None}
        else:
            t = h.inum('e1', 1, 999)
            v0 = t.val
            text = h.join('', ['Encut = ', t.text, ' # c0\n', 'ALGO=', v1, '\n'])
            r = h.run(lambda: I(incar_string=text, logger=h.logger))
            com = {'encut': 'c0', 'algo': None}
        h.check(r.ok, 'valid start accepted')
        k = r.value
        d = {'encut': v0, 'algo': v1}
        for s in range(h.size('steps', 1, steps)):
            op = h.choice(f'op{s}', ['modify', 'modify comment', 'delete'])
            tag = h.choice(f'tag{s}', TAGS)
            name = tag.upper() if h.choice(f'case{s}', [False, True]) else tag
            if op == 'delete':
                a = h.run(lambda: k.delete(name))
                d.pop(tag, None)
                com.pop(tag, None)
            else:
                kind = h.choice(f'kind{s}', ['plain float', 'words'] if s else ['plain float', 'bool', 'numeric text', 'words'])
                v, e = typed(h, kind, f's{s}')
                if op == 'modify':
                    a = h.run(lambda: k.modify(' ' + name + ' ', v))
                    com[tag] = None
                else:
                    a = h.run(lambda: k.modify(name, v, comment=f'  c{s} '))
                    com[tag] = f'c{s}'
                d[tag] = e
            h.check(a.ok, 'edit accepted')
        same(h, k.get_dict(), d, 'after edits')
        for t in TAGS:
            g = h.run(lambda: k.get(t.upper() if t == 'algo' else t, comment=True))
            h.check(g.ok, 'get succeeds')
            h.eq(list(g.value), [d.get(t), com.get(t)], 'get returns value and comment', 'exact')
            h.eq(k.get(t), d.get(t), 'get returns the value, None when absent', 'exact')
        k2, _ = reread(h, k, 'handler', True)
        same(h, k2.get_dict(), d, 'written after edits')
        for t in d:
            h.eq(k2.get(t, comment=True)[1], com[t], 'comments written after edits')
    return har


def equal(h):
    """Edits to a value that compares equal to the present one still give it the new type and comment."""
    I = h.mod('incar').Incar
    kinds = ['int', 'float', 'bool', 'text', 'ints', 'bools']

    def value(name):
        b = h.choice(name + 'b', [0, 1])
        k = h.choice(name, kinds)
        c = {'int': b, 'float': float(b), 'bool': bool(b), 'text': '.T.' if b else '.F.', 'ints': [b, b], 'bools': [bool(b)] * 2}[k]
        return c, bool(b) if k == 'text' else c
    v, e = value('old')
    w, f = value('new')
    r = h.run(lambda: I(incar_dict={'NSW': v, 'Isym': 0}, logger=h.logger))
    h.check(r.ok, 'valid start accepted')
    k = r.value
    com = h.choice('comment', [None, 'c'])
    h.check(h.run(lambda: k.modify('nsw', w, comment=com)).ok, 'edit accepted')
    same(h, k.get_dict(), {'nsw': f, 'isym': 0}, 'after edits')
    g, c = k.get('nsw', comment=True)
    h.eq([g, c], [f, com], 'get returns value and comment')
    k2, _ = reread(h, k, 'handler', True)
    same(h, k2.get_dict(), {'nsw': f, 'isym': 0}, 'written after edits')


def verbatim(h):
    """The tags whose text is kept as it is have comments and edits like the others."""
    I = h.mod('incar').Incar
    tag = h.choice('tag', ['system', 'magmom', 'm_constr'])
    w = [h.join('', [h.chars(f'w{i}', 2, inc.LETTERS), ' 2*1  x']) for i in range(2)]
    start = h.choice('start', ['absent', 'plain', 'comment', 'dict'])
    if start == 'dict':
        r = h.run(lambda: I(incar_dict={tag.upper(): h.join('', [w[0], ' # c0']), 'isym': 0}, logger=h.logger))
    else:
        text = [] if start == 'absent' else [h.join('', [tag.upper(), ' = ', w[0], ' #  c0 ' if start == 'comment' else ''])]
        r = h.run(lambda: I(incar_string=h.lines(text + ['ISYM = 0']), logger=h.logger))
    h.check(r.ok, 'valid start accepted')
    k = r.value
    d, com = {'isym': 0}, {'isym': None}
    if start != 'absent':
        d[tag], com[tag] = w[0], None if start == 'plain' else 'c0'
    h.eq(list(k.get(tag, comment=True)), [d.get(tag), com.get(tag)], 'get returns value and comment', 'exact')
    op = h.choice('op', ['none', 'modify', 'modify comment', 'delete'])
    if op == 'delete':
        h.check(h.run(lambda: k.delete(tag.upper())).ok, 'edit accepted')
        d.pop(tag, None)
        com.pop(tag, None)
    elif op != 'none':
        new = None if op == 'modify' else '  new '
        h.check(h.run(lambda: k.modify(tag, h.join('', [' ', w[1], ' ']), comment=new)).ok, 'edit accepted')
        d[tag], com[tag] = w[1], None if new is None else 'new'
    same(h, k.get_dict(), d, 'after edits')
    h.eq(list(k.get(tag.upper(), comment=True)), [d.get(tag), com.get(tag)], 'get returns value and comment', 'exact')
    k2, _ = reread(h, k, 'handler', True)
    same(h, k2.get_dict(), d, 'written after edits')
    for t in d:
        h.eq(k2.get(t, comment=True)[1], com[t], 'comments written after edits')


def refused(h):
    """An edit that can not be made ends in its exit code and changes nothing."""
    I = h.mod('incar').Incar
    v = h.int('e0', 1, 999)
    r = h.run(lambda: I(incar_string=h.lines(['ENCUT = 300 # c', 'NSW = 3']), logger=h.logger))
    h.check(r.ok, 'valid start accepted')
    k = r.value
    bad, code = h.choice('bad', [(None, 105), ((1, 2), 105), ({}, 105), (b'1', 105), ('1 a', 104), ('.T. 1', 104), ('1 1.0', 104), ('x 1', 104)])
    tag = h.choice('tag', ['ENCUT', 'encut', 'isym'])
    a = h.run(lambda: k.modify(tag, bad, comment=h.choice('c', [None, 'x'])))
    h.check(a.kind == 'exit' and a.code == code, 'refused with its exit code')
    same(h, k.get_dict(), {'encut': 300, 'nsw': 3}, 'refused edit')
    h.eq(list(k.get('encut', comment=True)), [300, 'c'], 'refused edit leaves the comment')
    h.check(h.run(lambda: k.modify('nsw', v)).ok, 'edit accepted afterwards')
    same(h, k.get_dict(), {'encut': 300, 'nsw': v}, 'after edits')


def harnesses(tier):
    return [('equal', equal), ('refused', refused), ('verbatim', verbatim), ('history', history(2 if tier == 'quick' else 3))]
