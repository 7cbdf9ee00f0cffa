"""INCAR entries shared by several checks."""

TRUE = ['.TRUE.', '.True.', '.true.', '.T.', '.t.']
FALSE = ['.FALSE.', '.False.', '.false.', '.F.', '.f.']
LETTERS = 'abcxyzABCXYZ'

KINDS = ['int', 'float', 'exponent', 'true', 'false', 'word', 'ints', 'floats', 'words', 'bools', 'system', 'magmom', 'm_constr']

# a tag on which each kind of value is at home
TAG = {'int': 'nsw', 'float': 'sigma', 'exponent': 'ediff', 'true': 'lwave', 'false': 'lcharg', 'word': 'prec',
       'ints': 'dipol', 'floats': 'ropt', 'words': 'algo', 'bools': 'lreal', 'system': 'system', 'magmom': 'magmom', 'm_constr': 'm_constr'}


def value(h, kind, n, pad=1):
    """Text and meaning of a value; n makes the names unique."""
    sep = ' ' * pad
    if kind == 'int':
        t = h.inum(f'v{n}', -999, 999)
        return t.text, t.val
    if kind == 'float':
        t = h.num(f'v{n}', 3, -99, 99)
        return t.text, t.val
    if kind == 'exponent':
        t = h.enum(f'v{n}', 2, -5, 1, letter=h.choice(f'el{n}', 'eE'))
        return t.text, t.val
    if kind == 'true':
        return h.choice(f'v{n}', TRUE), True
    if kind == 'false':
        return h.choice(f'v{n}', FALSE), False
    if kind == 'word':
        w = h.chars(f'v{n}', 3, LETTERS)
        return w, w
    if kind == 'ints':
        t = [h.inum(f'v{n}_{i}', -9, 99) for i in range(3)]
        return h.join(sep, [x.text for x in t]), [x.val for x in t]
    if kind == 'floats':
        t = [h.num(f'v{n}_{i}', 2, -9, 9) for i in range(3)]
        return h.join(sep, [x.text for x in t]), [x.val for x in t]
    if kind == 'words':
        t = [h.chars(f'v{n}_{i}', 2, LETTERS) for i in range(2)]
        return h.join(sep, t), t
    if kind == 'bools':
        b = h.choice(f'v{n}', [(True, False), (False, False, True)])
        return h.join(sep, ['.TRUE.' if x else '.FALSE.' for x in b]), list(b)
    if kind == 'system':
        w = h.join('', ['My ', h.chars(f'v{n}', 2, LETTERS), '  system   3'])
        return w, w
    w = h.join('', ['4*', h.num(f'v{n}', 1, 0, 9).text, ' 2*0.5'])
    return w, w
