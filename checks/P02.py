"""INCAR: writing and re-reading gives the same tags, values and types (and comments when asked for)."""
from . import inc
from .P01 import MANY
from .tags import TAGS as ALL

BOUNDS = ('1-3 tags (quick) / 1-4, 12 and all tags at once over 16 kinds of values from a dictionary or from text, tags in any letter case, string, '
          'path and handler outputs, with and without comments; numbers, letters and booleans symbolic')
ASSUMPTIONS = ['lists have at least two elements of one type; words contain no #, =, ; or blanks and are not spelled like a '
               'number or a logical']

KINDS = ['int', 'float', 'tiny', 'bool', 'word', 'ints', 'floats', 'words', 'bools', 'numeric text', 'logical text',
         'text with comment', 'empty comment', 'tight comment', 'system', 'magmom', 'm_constr', 'big', 'system comment', 'magmom comment', 'm_constr comment']
TAGS = ['sigma', 'encut', 'algo', 'nsw']


def typed(h, kind, n):
    """(value to hand in, value expected back)."""
    if kind == 'int':
        v = h.int(f'v{n}', -9999, 9999)
    elif kind == 'float':
        v = h.real(f'v{n}', 9, -99999, 99999)
    elif kind == 'plain float':
        v = h.real(f'v{n}', 4, 1, 999)
    elif kind == 'tiny':
        v = h.choice(f'v{n}', [1e-05, 1.5e-08, 1e16, -2.5e-7, 1e22, 0.1, 100000.0, 3.5e-17, -1e-300, 123456789.12345679, 0.30000000000000004, 1.0])
    elif kind == 'big':
        v = h.choice(f'v{n}', [10**20, -(2**63), 123456789012, 0, -1])
    elif kind == 'bool':
        v = h.choice(f'v{n}', [True, False])
    elif kind == 'word':
        v = h.join('', [h.chars(f'v{n}', 3, inc.LETTERS), h.choice('tail', ['', 'MAL', 'urate_2', '+.x-']) if n == 0 else ''])
    elif kind == 'ints':
        v = [h.int(f'v{n}_{i}', -99, 99) for i in range(3)]
    elif kind == 'floats':
        v = [h.real(f'v{n}_{i}', 3, -9, 9) for i in range(2)]
    elif kind == 'words':
        v = [h.chars(f'v{n}_{i}', 2, inc.LETTERS) for i in range(2)]
    elif kind == 'bools':
        v = h.choice(f'v{n}', [[True, False], [False, False, True], [True, True]])
    elif kind == 'numeric text':
        t = h.inum(f'v{n}', -99, 99)
        return t.text, t.val
    elif kind == 'logical text':
        b = h.choice(f'v{n}', [True, False])
        return ('.TRUE.' if b else '.FALSE.'), b
    elif kind == 'text with comment':
        t = h.num(f'v{n}', 3, 0, 9)
        return h.join('', [t.text, ' # why']), t.val
    elif kind == 'empty comment':
        t = h.num(f'v{n}', 3, 0, 9)
        return h.join('', [t.text, h.choice(f'end{n}', [' #', '#', ' # '])]), t.val
    elif kind == 'tight comment':
        w = h.chars(f'v{n}', 3, inc.LETTERS)
        return h.join('', [w, '#why']), w
    elif kind in ('system comment', 'magmom comment', 'm_constr comment'):
        w = h.join('', ['4*', h.chars(f'v{n}', 2, inc.LETTERS), ' x'])
        return h.join('', [w, ' # why']), w
    else:
        v = h.join('', ['4*', h.chars(f'v{n}', 2, inc.LETTERS), ' x  é'])
    return v, v


def reread(h, inst, out, comments=False):
    I = h.mod('incar').Incar
    kw = {'comments': True} if comments else {}
    if out == 'string':
        w = h.run(inst.get_string)
        h.check(w.ok, 'get_string succeeds')
        text = w.value
        r = h.run(lambda: I(incar_string=text, logger=h.logger))
    elif out == 'path':
        p = h.outpath()
        h.check(h.run(lambda: inst.write(file_path=p, **kw)).ok, 'write to a path succeeds')
        r = h.run(lambda: I(file_path=p, logger=h.logger))
        text = h.contents(p)
    else:
        f = h.file('')
        h.check(h.run(lambda: inst.write(file_handler=f, **kw)).ok, 'write to a handler succeeds')
        text = f.getvalue()
        r = h.run(lambda: I(file_handler=h.file(text), logger=h.logger))
    h.check(r.ok, 'what was written is parsed again')
    return r.value, text


def kinds(h, x):
    return [h.kind(v) for v in x] if isinstance(x, list) else h.kind(x)


def same(h, got, exp, what):
    h.check(set(got) == set(exp), f'{what}: same tags')
    for t in exp:
        h.eq(got[t], exp[t], f'{what}: value', 'exact')
        h.check(kinds(h, got[t]) == kinds(h, exp[t]), f'{what}: type')


def one(h):
    """One tag of each kind beside a fixed one."""
    kind = h.choice('kind', KINDS)
    out = h.choice('out', ['string', 'path', 'handler', 'path comments', 'handler comments'])
    tag = kind.split()[0] if kind.split()[0] in ('system', 'magmom', 'm_constr') else 'algo'
    v, e = typed(h, kind, 0)
    name = h.choice('name', [tag, tag.upper(), tag.capitalize(), ' ' + tag + ' '])
    I = h.mod('incar').Incar
    r = h.run(lambda: I(incar_dict={name: v, 'ISYM': 2}, logger=h.logger))
    h.check(r.ok, 'valid dictionary accepted')
    exp = {tag: e, 'isym': 2}
    same(h, r.value.get_dict(), exp, 'dictionary')
    k, text = reread(h, r.value, out.split()[0], 'comments' in out)
    same(h, k.get_dict(), exp, 'round trip')
    if kind != 'empty comment':
        keep = 'comments' in out and (kind == 'tight comment' or kind.endswith(' comment') and kind != 'empty comment')
        h.eq(k.get(tag, comment=True)[1], 'why' if keep else None, 'comments are written only when asked for')


def ordered(h):
    """All tags at once come out in alphabetical order; of a tag given in two letter cases the last entry counts."""
    I = h.mod('incar').Incar
    v, w = h.int('v', -99, 99), h.int('w', -99, 99)
    order = h.choice('order', ['given', 'reversed', 'length'])
    T = {'given': list, 'reversed': lambda x: x[::-1], 'length': lambda x: sorted(x, key=lambda t: (len(t), t[::-1]))}[order]([t for t in ALL if t not in
        ('system', 'magmom', 'm_constr')])
    first, second = h.choice('case', [('ENCUT', 'encut'), ('encut', 'ENCUT'), ('Encut', 'ENCUT ')])
    d = {first: v}
    d.update({t: i for i, t in enumerate(T) if t != 'encut'})
    d[second] = w
    r = h.run(lambda: I(incar_dict=d, logger=h.logger))
    h.check(r.ok, 'valid dictionary accepted')
    exp = {t: i for i, t in enumerate(T)}
    exp['encut'] = w
    h.eq(r.value.get_dict(), exp, 'the last entry of a repeated tag wins', 'exact')
    k, text = reread(h, r.value, h.choice('out', ['string', 'path']))
    names = [x.split('=')[0].strip() for x in text.splitlines()]
    h.eq(names, [t.upper() for t in sorted(T)] if names != sorted(t.upper() for t in T) else names,
         'one line per tag, in upper case and alphabetical order')
    h.eq(k.get_dict(), exp, 'round trip', 'exact')


def several(hi):
    def har(h):
        n = h.size('n', 2, hi)
        d, exp = {}, {}
        for i in range(n):
            kind = h.choice(f'kind{i}', ['int', 'plain float', 'bool', 'words', 'floats', 'text with comment'])
            d[TAGS[i]], exp[TAGS[i]] = typed(h, kind, i)
        I = h.mod('incar').Incar
        r = h.run(lambda: I(incar_dict=d, logger=h.logger))
        h.check(r.ok, 'valid dictionary accepted')
        k, text = reread(h, r.value, 'string')
        same(h, k.get_dict(), exp, 'round trip')
        names = [x.split('=')[0].strip() for x in text.splitlines()]
        h.eq(names, sorted(t.upper() for t in exp), 'one line per tag, in upper case and alphabetical order')
        k2, text2 = reread(h, k, 'handler')
        h.eq(text2, text, 'writing again writes the same text')
    return har


def many(h):
    """More than nine tags, more than nine values of one tag."""
    out = h.choice('out', ['string', 'path', 'handler comments'])
    rev = h.choice('reversed', [False, True])
    d = {}
    for i, tag in enumerate(MANY):
        if tag in ('ropt', 'dipol'):
            d[tag] = [h.real(f'l{i}_{j}', 3, -9, 9) if tag == 'ropt' else h.int(f'l{i}_{j}', -9, 99) for j in range(12)]
        else:
            d[tag], _ = typed(h, ['int', 'float', 'word', 'bool'][i % 4], i)
    I = h.mod('incar').Incar
    given = {t: d[t] for t in (reversed(MANY) if rev else MANY)}
    r = h.run(lambda: I(incar_dict=given, logger=h.logger))
    h.check(r.ok, 'valid dictionary accepted')
    k, text = reread(h, r.value, out.split()[0], 'comments' in out)
    same(h, k.get_dict(), d, 'round trip')
    h.eq([x.split('=')[0].strip() for x in text.splitlines()], sorted(t.upper() for t in MANY),
         'one line per tag, in upper case and alphabetical order')


def from_text(h):
    kind = h.choice('kind', inc.KINDS)
    out = h.choice('out', ['string', 'path comments', 'handler'])
    txt, val = inc.value(h, kind, 0)
    tag = inc.TAG[kind]
    com = h.choice('comment', [None, 'a # b ; c = d'])
    text = h.join('', [tag, ' = ', txt, '' if com is None else ' # ' + com, '\nISYM = 0\n'])
    I = h.mod('incar').Incar
    r = h.run(lambda: I(incar_string=text, logger=h.logger))
    h.check(r.ok, 'well-formed INCAR is parsed')
    k, _ = reread(h, r.value, out.split()[0], 'comments' in out)
    same(h, k.get_dict(), {tag: val, 'isym': 0}, 'text round trip')
    h.eq(k.get(tag, comment=True)[1], com if 'comments' in out else None, 'comment survives when written')


def harnesses(tier):
    return [('one', one), ('several', several(3 if tier == 'quick' else 4)), ('many', many), ('text', from_text), ('ordered', ordered)]
