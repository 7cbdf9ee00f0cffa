"""vasprun.xml documents: text and the values they state."""
import contextlib
import re

from symex.harness import Tok
from symex.xmlshim import FILL

Z = ('H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd '
     'Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac '
     'Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn').split()
NUM = {s: i + 1 for i, s in enumerate(Z)}
ENERGIES = [('e_fr_energy', 'energy_free'), ('e_wo_entrp', 'energy_no_entropy'), ('e_0_energy', 'energy_extrapolated')]


class Doc:
    """Lines of a document; sym names the sections whose numbers are symbolic."""

    def __init__(self, h, sym=(), marks=()):
        self.h, self.sym, self.k = h, sym, 0
        self.L = []
        self.P = []         # parts of each line
        self.over = {}      # number index within a section -> overflowed
        self.seen = {}
        self.at = {}        # line of each row of numbers
        self.keep = []
        self.begun, self.done = {}, {}      # section -> line of its first tag, line after its last

    def num(self, sec, p=8, w=16, lo=-999, hi=999):
        self.k += 1
        i = self.seen[sec] = self.seen.get(sec, -1) + 1
        if self.over.get(sec) == i:
            return Tok('*' * w, None)
        if sec in self.sym:
            return self.h.num(f'{sec}_{i}', p, lo, hi, w)
        v = (self.k * 7 % 400 - 150) / 8
        if not lo <= v <= hi:
            v = lo + (self.k % 97) / 128 * (hi - lo)
            v = round(v, 2)
        t = f'{v:{w}.{p}f}'
        return Tok(t, float(t))

    def inum(self, sec, value, w=6):
        if sec in self.sym:
            i = self.seen[sec] = self.seen.get(sec, -1) + 1
            return self.h.inum(f'{sec}{i}', -99, 999, w)
        return Tok(str(value).rjust(w), value)

    def add(self, *parts):
        self.P.append(parts)
        self.L.append(self.h.join('', [p.text if isinstance(p, Tok) else p for p in parts]))

    def row(self, ind, tag, toks, attr=''):
        self.add(' ' * ind, f'<{tag}{attr}>', *toks, f' </{tag}>')
        v = [t.val for t in toks]
        self.at[id(v)] = len(self.L) - 1
        self.keep.append(v)
        return v

    def rows(self, ind, tag, sec, n, m, p=8, w=16, **k):
        return [self.row(ind, tag, [self.num(sec, p, w, **k) for _ in range(m)]) for _ in range(n)]

    def varray(self, ind, name, sec, n, m, **k):
        self.add(' ' * ind, f'<varray name="{name}" >')
        v = self.rows(ind + 1, 'v', sec, n, m, **k)
        self.add(' ' * ind, '</varray>')
        return v

    def block(self, ind, tag, attr=''):
        return _Block(self, ind, tag, attr)

    @contextlib.contextmanager
    def part(self, name):
        self.begun[name] = len(self.P)
        yield
        self.done[name] = len(self.P)

    # sections ---------------------------------------------------------------
    def head(self, version='5.4.4  '):
        self.add('<?xml version="1.0" encoding="ISO-8859-1"?>')
        self.add('<modeling>')
        self.add(FILL)
        with self.block(1, 'generator'):
            self.add('  <i name="program" type="string">vasp </i>')
            if version is not None:
                self.add('  <i name="version" type="string">', version, '</i>')
            self.add('  <i name="subversion" type="string">18Apr17-6-g9f103f2a35 complex </i>')
        with self.block(1, 'incar'):
            self.add('  <i type="int" name="ISPIN">     7</i>')
            self.add('  <i type="int" name="NSW">     7</i>')
            self.add('  <i name="SIGMA">      7.00000000</i>')

    def kpoints(self, nk, div=True):
        """Returns points, weights, divisions."""
        d = None
        with self.block(1, 'kpoints'):
            if div:
                with self.block(2, 'generation', ' param="Gamma"'):
                    toks = [self.inum('kpointdiv', 2 + i, 9) for i in range(3)]
                    d = self.row(3, 'v', toks, ' type="int" name="divisions"')
                    self.row(3, 'v', [self.num('kpointgen') for _ in range(3)], ' name="usershift"')
            k = self.varray(2, 'kpointlist', 'kpoints', nk, 3)
            w = [x[0] for x in self.varray(2, 'weights', 'kpointsw', nk, 1)]
        return k, w, d

    def parameters(self, ispin=1, nbands=2, extra=None, **texts):
        """Values are texts or numbers; ints are printed plainly."""
        t = {'SYSTEM': 'unknown system', 'NBANDS': Tok(f'{nbands:6d}', nbands), 'ISPIN': Tok(f'{ispin:6d}', ispin),
             'NELECT': Tok('     32.00000000', 32.0), 'ISMEAR': Tok('     0', 0), 'SIGMA': Tok('      0.20000000', 0.2),
             'NELM': Tok('    60', 60), 'NSW': Tok('    80', 80), 'SYMPREC': Tok('      0.00001000', 1e-5)}
        t.update(texts)

        def item(ind, key, typ):
            if t[key] is not None:
                self.add(' ' * ind, f'<i {typ}name="{key}">', t[key], '</i>')
        i, s = 'type="int" ', 'type="string" '
        with self.block(1, 'parameters'):
            with self.block(2, 'separator', ' name="general" '):
                item(3, 'SYSTEM', s)
                self.add('   <i type="logical" name="LCOMPAT"> F  </i>')
            with self.block(2, 'separator', ' name="electronic" '):
                self.add('   <i type="string" name="PREC">a</i>')
                self.add('   <i name="ENMAX">    350.00000000</i>')
                item(3, 'NBANDS', i)
                item(3, 'NELECT', '')
                with self.block(3, 'separator', ' name="electronic smearing" '):
                    item(4, 'ISMEAR', i)
                    item(4, 'SIGMA', '')
                with self.block(3, 'separator', ' name="electronic spin" '):
                    item(4, 'ISPIN', i)
                    self.add('    <i type="logical" name="LNONCOLLINEAR"> F  </i>')
                with self.block(3, 'separator', ' name="electronic convergence" '):
                    item(4, 'NELM', i)
                    self.add('    <i type="int" name="NELMDL">   -12</i>')
                    self.add('    <i type="int" name="NELMIN">     2</i>')
            with self.block(2, 'separator', ' name="ionic" '):
                item(3, 'NSW', i)
                self.add('   <i type="int" name="IBRION">     1</i>')
            with self.block(2, 'separator', ' name="symmetry" '):
                self.add('   <i type="int" name="ISYM">     2</i>')
                item(3, 'SYMPREC', '')
            with self.block(2, 'separator', ' name="response functions" '):
                self.add('   <i type="int" name="NELM">     3</i>')
                self.add('   <i type="int" name="NBANDSV">     3</i>')
        return {k.lower(): v.val if isinstance(v, Tok) else v for k, v in t.items()}

    def atominfo(self, species):
        with self.block(1, 'atominfo'):
            self.add(f'  <atoms>       {len(species)} </atoms>')
            self.add(f'  <types>       {len(set(map(str, species)))} </types>')
            with self.block(2, 'array', ' name="atoms" '):
                self.add('   <dimension dim="1">ion</dimension>')
                self.add('   <field type="string">element</field>')
                with self.block(3, 'set'):
                    for s in species:
                        self.add('    <rc><c>', s if len(s) > 1 else self.h.join('', [s, ' ']), '</c><c>   1</c></rc>')
            with self.block(2, 'array', ' name="atomtypes" '):
                self.add('   <field type="string">element</field>')
                with self.block(3, 'set'):
                    self.add('    <rc><c>   1</c><c>Xe</c><c>     28.08500000</c></rc>')
        return [NUM[s] for s in species] if all(isinstance(s, str) for s in species) else None

    def structure(self, ind, n, name=None, sec='', velocities=False):
        """Returns cell, positions."""
        with self.block(ind, 'structure', f' name="{name}" ' if name else ''):
            with self.block(ind + 1, 'crystal'):
                cell = self.varray(ind + 2, 'basis', sec + 'cell', 3, 3)
                self.row(ind + 2, 'i', [self.num('volume')], ' name="volume"')
                self.varray(ind + 2, 'rec_basis', 'rec', 3, 3)
            pos = self.varray(ind + 1, 'positions', sec + 'pos', n, 3)
            if velocities:
                self.varray(ind + 1, 'velocities', 'vel', n, 3)
        return cell, pos

    def energies(self, ind, sec, keys=ENERGIES, more=False):
        """One <energy> element; returns name -> value."""
        out = {}
        with self.block(ind, 'energy'):
            if more:
                for k in ('alphaZ', 'ewald', 'eentropy'):
                    self.row(ind + 1, 'i', [self.num('other')], f' name="{k}"')
            for k, name in keys:
                t = self.num(sec)
                self.row(ind + 1, 'i', [t], f' name="{k}"')
                out[name] = t.val
        return out

    def scsteps(self, n):
        out = {name: [] for _, name in ENERGIES}
        for i in range(n):
            with self.block(2, 'scstep'):
                self.add('   <time name="dav">    0.80    0.91</time>')
                for name, v in self.energies(3, 'sc', more=i == 0).items():
                    out[name].append(v)
        return out

    def spinset(self, ind, s, ns=None):
        return self.block(ind, 'set', f' comment="spin {s}"')

    def eigen(self, ind, sec, ns, nk, nb, cols=2, tag='eigenvalues', attr=''):
        """Returns value[spin][k][band][column]."""
        out = []
        with self.block(ind, tag, attr):
            with self.block(ind + 1, 'array'):
                self.add('    <dimension dim="1">band</dimension>')
                self.add('    <field>eigene</field>')
                with self.block(ind + 2, 'set'):
                    for s in range(ns):
                        with self.spinset(ind + 3, s + 1):
                            ks = []
                            for k in range(nk):
                                with self.block(ind + 4, 'set', f' comment="kpoint {k + 1}"'):
                                    ks.append(self.rows(ind + 5, 'r', sec, nb, cols, 4, 10))
                            out.append(ks)
        return out

    def dos(self, sec, ns, npts, nat=0, cols=9, comment=None, pspins=None, fermi=True):
        """Returns fermi, total[spin][energy][3], partial[spin][ion][energy][1 + cols] or None."""
        f = None
        tot, par = [], None
        with self.block(2, 'dos', f' comment="{comment}"' if comment else ''):
            if fermi:
                t = self.num(sec + 'fermi')
                self.row(3, 'i', [t], ' name="efermi"')
                f = t.val
            with self.block(3, 'total'):
                with self.block(4, 'array'):
                    self.add('     <field>energy</field>')
                    with self.block(5, 'set'):
                        for s in range(ns):
                            with self.spinset(6, s + 1):
                                tot.append(self.rows(7, 'r', sec, npts, 3, 4, 10))
            if nat:
                pspins = pspins or ns
                par = [[None] * nat for _ in range(pspins)]
                with self.block(3, 'partial'):
                    with self.block(4, 'array'):
                        self.add('     <field>energy</field>')
                        with self.block(5, 'set'):
                            for a in range(nat):
                                with self.block(6, 'set', f' comment="ion {a + 1}"'):
                                    for s in range(pspins):
                                        with self.spinset(7, s + 1):
                                            par[s][a] = self.rows(8, 'r', sec + 'p', npts, cols + 1, 4, 10)
        return f, tot, par

    def projected(self, ns, nk, nb, nat, cols=9):
        """Returns value[spin][k][band][ion][orbital]."""
        out = []
        with self.block(2, 'projected'):
            self.eigen(3, 'projeig', ns, nk, nb)
            with self.block(3, 'array'):
                self.add('    <dimension dim="1">ion</dimension>')
                with self.block(4, 'set'):
                    for s in range(ns):
                        with self.block(5, 'set', f' comment="spin{s + 1}"'):
                            ks = []
                            for k in range(nk):
                                with self.block(6, 'set', f' comment="kpoint {k + 1}"'):
                                    bs = []
                                    for b in range(nb):
                                        with self.block(7, 'set', f' comment="band {b + 1}"'):
                                            bs.append(self.rows(8, 'r', 'proj', nat, cols, 4, 8, lo=-9, hi=99))
                                    ks.append(bs)
                            out.append(ks)
        return out

    def end(self):
        self.add('</modeling>')

    def text(self):
        return self.h.lines(self.L)

    def cuts(self, first=0, inside=False):
        """Places (line, part, offset) where the document may be cut: at the ends and inside of every tag,
        and between and inside of the numbers."""
        out = []
        for i, parts in enumerate(self.P):
            if i < first:
                continue
            for j, p in enumerate(parts):
                if isinstance(p, str):
                    o = {0}
                    for m in re.finditer('[<>]', p):
                        o |= {m.start(), m.start() + 1}
                    if '<' in p:
                        o.add((p.index('<') + len(p)) // 2)
                    if p == FILL:
                        o = ()
                    out += [(i, j, k) for k in sorted(o)]
                else:
                    out.append((i, j, 0))
                    if inside and isinstance(p.text, str):
                        t, n = p.text, len(p.text.rstrip())
                        b = n - len(t.strip())
                        out += [(i, j, k) for k in sorted({b + 1, b + 2, (b + n) // 2, n - 1, n})]
        return out

    def complete(self, name, cut):
        """The section ends before the cut, or at it."""
        if name not in self.done:
            return False
        i, j, k = cut
        p = self.P[self.done[name] - 1]
        return self.done[name] <= i or self.done[name] - 1 == i and j == len(p) - 1 and k == len(p[j])

    def prefix(self, cut):
        i, j, k = cut
        t = self.P[i]
        head = [p.text if isinstance(p, Tok) else p for p in t[:j]]
        if k:
            head.append((t[j].text if isinstance(t[j], Tok) else t[j])[:k])
        return self.h.join('', [self.h.lines(self.L[:i])] + head)


class _Block:
    def __init__(self, d, ind, tag, attr):
        self.a = (d, ind, tag, attr)

    def __enter__(self):
        d, ind, tag, attr = self.a
        d.add(' ' * ind, f'<{tag}{attr}>')

    def __exit__(self, *a):
        d, ind, tag, _ = self.a
        d.add(' ' * ind, f'</{tag}>')


def parse(h, doc, event=False, how='path', cut=None, **kw):
    X = h.mod('vasprun').Xml
    text = doc.text() if isinstance(doc, Doc) else doc
    s = h.xml(text, how, cut)
    if how == 'path':
        return h.run(lambda: X(file_path=s, event=event, logger=h.logger, **kw))
    return h.run(lambda: X(file_handler=s, event=event, logger=h.logger, **kw))
