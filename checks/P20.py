"""Overflowed numbers are never passed on."""
from checks import vx
from checks.P17 import finish, start
from checks.P19 import ALL, SYM, sections

BOUNDS = ('vasprun.xml: one field after the other filled with asterisks, in documents made of every section the parsers know, 1 or 2 spins, '
          '1 or 2 ionic steps, ions, k-points and bands, all other values symbolic, regular and event parser, also in fields that are '
          'not reported; CHGCAR (grids of 2 to 4 points), DOSCAR and EIGENVAL: the same for one or two layouts each')
# numbers the parsers do not report
UNREAD = ('volume', 'rec', 'other', 'kpointgen')
PARS = ['SYMPREC', 'ISPIN', 'ISMEAR', 'SIGMA', 'NBANDS', 'NELECT', 'NELM', 'NSW']


def build(h, sym, over, ns, m, steps, par=None):
    d = vx.Doc(h, sym)
    if over:
        d.over[over[0]] = over[1]
    texts = {par: vx.Tok('*' * 8, None)} if par else {}
    if par != 'ISPIN':
        texts['ispin'] = ns
    start(h, d, m, 2, ['Si', 'O'][:m], steps, True, **texts)
    sections(d, ALL + ['partial'], ns, m, 2, m, m, 3)
    finish(d, m)
    return d


def fields(ns, m, steps):
    from symex.harness import ConcH
    d = build(ConcH({}), (), None, ns, m, steps)
    return [(s, i) for s in sorted(d.seen) if s[:3] not in ('ini', 'fin') for i in range(d.seen[s] + 1)]


def anywhere(sizes):
    def anywhere(h):
        """Any one number of the file."""
        ns, m, steps = h.choice('size', sizes)
        over = h.choice('over', fields(ns, m, steps))
        event = h.choice('event', [False, True])
        d = build(h, SYM, over, ns, m, steps)
        if over[0] in UNREAD:
            o = vx.parse(h, d, event)
            h.check(o.ok, f'an overflowed number that is not reported ({over[0]}) does no harm')
            return
        o = vx.parse(h, d, event)
        h.check(o.kind == 'exit' and o.code == 509, f'an overflowed number in {over[0]} ends with the overflow code')
    return anywhere


def parameters(h):
    """Run parameters."""
    par = h.choice('par', PARS)
    event = h.choice('event', [False, True])
    d = build(h, SYM, None, 1, 1, 1, par)
    o = vx.parse(h, d, event)
    h.check(o.kind == 'exit' and o.code == 509, f'an overflowed {par} ends with the overflow code')


class Done(Exception):
    """The parser has answered."""


class Starred:
    """A harness that fills the field of one name with asterisks and stops at the parser's answer."""

    def __init__(self, h, over, fixed):
        self.h, self.over, self.fixed, self.names = h, over, fixed, []

    def __getattr__(self, name):
        return getattr(self.h, name)

    def choice(self, name, options):
        return self.fixed[name]

    def size(self, name, lo, hi):
        return self.fixed[name]

    def _num(self, kind, name, *a, **k):
        self.names.append(name)
        if self.over == name or self.over is None:
            return vx.Tok(' ' + '*' * 8, 1.0)
        return getattr(self.h, kind)(name, *a, **k)

    def num(self, *a, **k):
        return self._num('num', *a, **k)

    def inum(self, *a, **k):
        return self._num('inum', *a, **k)

    def enum(self, *a, **k):
        return self._num('enum', *a, **k)

    def assume(self, c):
        if self.over is not None:
            self.h.assume(c)

    def run(self, fn):
        if self.over is None:
            raise Done
        self.outcome = self.h.run(fn)
        raise Done


# file, sizes and fields that are not reported
OTHERS = [('P10', {'nk': 2, 'nb': 2, 'ns': 2, 'occ': True, 'variant': 'plain'}, ('o', )),
          ('P10', {'nk': 1, 'nb': 1, 'ns': 1, 'occ': False, 'variant': 'path'}, ()),
          ('P11', {'form': (9, 2), 'nd': 2, 'ni': 2, 'variant': 'plain'}, ('l10', 'l11', 'l12', 'l13', 'l14', 'l2')),
          ('P11', {'form': (4, 4), 'nd': 1, 'ni': 1, 'variant': 'plain'}, ('l10', 'l11', 'l12', 'l13', 'l14', 'l2')),
          ('P11', {'form': (0, 1), 'nd': 2, 'ni': 1, 'variant': 'plain'}, ('l10', 'l11', 'l12', 'l13', 'l14', 'l2')),
          ('P09', {'dims': (2, 2, 1), 'nset': 2, 'variant': 'augmentation'}, ('x', 'aug')),
          ('P09', {'dims': (1, 2, 1), 'nset': 4, 'variant': 'plain'}, ('x', 'aug')),
          ('P09', {'dims': (1, 1, 2), 'nset': 1, 'variant': 'plain'}, ('x', 'aug'))]


def starred(h, pid, fixed, over):
    import importlib
    p = Starred(h, over, fixed)
    try:
        importlib.import_module('checks.' + pid).harnesses('quick')[0][1](p)
    except Done:
        pass
    return p


def others(h):
    """CHGCAR, DOSCAR and EIGENVAL never turn such a field into a number."""
    pid, fixed, unread = h.choice('file', OTHERS)
    from symex.harness import ConcH
    names = [n for n in starred(ConcH({}), pid, fixed, None).names if not n.startswith(unread)]
    over = h.choice('over', names)
    h.check(not starred(h, pid, fixed, over).outcome.ok, f'{pid}: a file with an overflowed number is not reported')


def harnesses(tier):
    sizes = [(1, 1, 1), (2, 2, 2)] if tier == 'quick' else [(ns, m, s) for ns in (1, 2) for m in (1, 2, 3) for s in (1, 2, 3)]
    return [('anywhere', anywhere(sizes)), ('parameters', parameters), ('others', others)]
