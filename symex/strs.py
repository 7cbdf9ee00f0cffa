"""Symbolic strings.

A SymStr is a Python list of elements of *known* count:

* a native one-character string,
* ``Ch``  - one character whose code is a z3 Int with a finite table of values,
* ``Num`` - the text of one number: its value is symbolic, its digits are only
            spelled out (by forking over sign and digit count) when the code
            under test looks at individual characters,
* ``Pad`` - the blanks a fixed-width format puts before/after a Num; empty when
            the number fills its field.
"""
import re as _re
import string as _string
from fractions import Fraction

import z3

from . import core
from .core import (SymBool, SymInt, SymNum, SymReal, is_npnum, mkbool, mkint, mkreal, unmodelled, zint, zreal)

WS = set(' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0')
DIG = set('0123456789')


class Ch:
    __slots__ = ('v', 'tab')

    def __init__(self, v, tab):
        self.v = v          # z3 Int: index code
        self.tab = tab      # tuple of (code, out char)

    def outs(self):
        return {o for _, o in self.live()}

    def live(self):
        """The table entries still possible on this path (cheap refinement)."""
        alive = core.CTX.__dict__.setdefault('chdom', {}).get(self.v.get_id())
        if alive is None:
            return self.tab
        return tuple(t for t in self.tab if t[0] in alive[0])

    def refine(self, codes):
        core.CTX.__dict__.setdefault('chdom', {})[self.v.get_id()] = (frozenset(codes), self.v)

    def cond(self, chars):
        """z3 condition that the character is in chars."""
        live = self.live()
        yes = [c for c, o in live if o in chars]
        if len(yes) == len(live):
            return z3.BoolVal(True)
        if not yes:
            return z3.BoolVal(False)
        return z3.Or([self.v == c for c in yes]) if len(yes) > 1 else self.v == yes[0]

    def test(self, chars):
        live = self.live()
        yes = [c for c, o in live if o in chars]
        if len(yes) == len(live):
            return True
        if not yes:
            return False
        if len(yes) * 2 <= len(live):
            r = core.CTX.branch(z3.Or([self.v == c for c in yes]) if len(yes) > 1 else self.v == yes[0])
        else:
            no = [c for c, o in live if o not in chars]
            r = not core.CTX.branch(z3.Or([self.v == c for c in no]) if len(no) > 1 else self.v == no[0])
        ys = set(yes)
        self.refine(ys if r else [c for c, _ in live if c not in ys])
        return r

    def map(self, f):
        tab = []
        for c, o in self.tab:
            n = f(o)
            if len(n) != 1:
                unmodelled('character mapping that changes length')
            tab.append((c, n))
        tab = tuple(tab)
        if len({o for _, o in tab}) == 1:
            return tab[0][1]
        return Ch(self.v, tab)

    def conc(self):
        """Fork over the possible characters."""
        live = self.live()
        for o in sorted({o for _, o in live})[:-1]:
            if self.test({o}):
                return o
        return sorted({o for _, o in self.live()})[0]

    def __repr__(self):
        return f'<{self.v}:{"".join(o for _, o in self.tab)}>'


class Num:
    """Text of one number."""
    __slots__ = ('val', 'kind', 'prec', 'neg', 'width', 'fix', 'plus', 'mant', 'exp', 'exptxt', 'zero', 'expdot')

    def __init__(self, val, kind, prec=0, neg=None, width=0, plus=False, mant=None, exp=None, exptxt=None, zero=False):
        self.val = val      # z3 Int (kind 'i') or Real
        self.kind = kind    # 'i' | 'f' | 'e' | 'r' (shortest repr) | 'g' (opaque)
        self.prec = prec
        self.neg = neg if neg is not None else (val < 0)
        self.width = width
        self.plus = plus
        self.mant, self.exp, self.exptxt = mant, exp, exptxt
        self.zero = zero
        self.fix = None
        self.expdot = None

    @property
    def alphabet(self):
        base = set('0123456789-')
        if self.plus:
            base.add('+')
        if self.kind == 'f':
            base.add('.')
        if self.kind in 'erg':
            base |= set('.eEdD+')
        return base

    def count_char(self, c):
        """How often c occurs in the text, when that needs no spelling (else None)."""
        if c.isdigit() or c in '+-':
            return None
        if self.kind == 'i':
            return 0
        if self.kind == 'f':
            return int(c == '.' and self.prec > 0)
        if self.kind == 'e' and self.mant is not None:
            return int(c == '.') + self.exptxt.count(c)
        if self.kind in 'rg':
            if self.kind == 'g':   # repr in exponent notation
                if c != '.':
                    return int(c == 'e')
                if self.expdot is None:
                    a = z3.If(self.val < 0, -self.val, self.val)
                    ks = list(range(-20, -4)) + list(range(16, 24))
                    core.CTX.assume(z3.And(a > z3.RealVal(Fraction(1, 10**20)), a < 10**24))
                    self.expdot = not core.CTX.branch(z3.Or([a == z3.RealVal(Fraction(d) * Fraction(10)**k)
                                                             for k in ks for d in range(1, 10)]))
                return int(self.expdot)
            return int(c == '.')
        return None

    def fits(self):
        """z3 condition: the text is strictly shorter than the field."""
        w = self.width
        if self.kind == 'f':
            a, b = w - 3 - self.prec, w - 2 - self.prec
        elif self.kind == 'i':
            a, b = w - 2, w - 1
        else:
            unmodelled('field width of a free-format number')
        if self.plus:
            b -= 1
        v = self.val if self.kind == 'f' else z3.ToReal(self.val)
        lo = v > -(10 ** a) if a >= 1 else z3.BoolVal(False)
        hi = v < 10 ** b if b >= 1 else z3.BoolVal(False)
        return z3.If(self.neg, lo, hi)

    def expand(self):
        """Spell the number: list of native chars and digit Chs."""
        if self.fix is not None:
            return self.fix
        ctx = core.CTX
        out = []
        neg = ctx.branch(self.neg)
        if neg:
            out.append('-')
        elif self.plus:
            out.append('+')
        if self.kind == 'i':
            mag, prec = (-self.val if neg else self.val), 0
        elif self.kind == 'f':
            sc = z3.RealVal(10 ** self.prec)
            mag, prec = z3.simplify(z3.ToInt((-self.val if neg else self.val) * sc)), self.prec
        elif self.kind == 'e' and self.mant is not None:
            mag, prec = (-self.mant if neg else self.mant), self.prec
        else:
            unmodelled('spelling of a free-format number')
        digits = []
        nint = 1
        while ctx.branch(mag >= 10 ** (prec + nint)):
            nint += 1
            if nint > 12:
                unmodelled('number too long to spell')
        total = nint + prec
        acc = z3.IntVal(0)
        for k in range(total):
            d = ctx.fresh('dig', 'int')
            ctx.add(z3.And(d >= 0, d <= 9))
            acc = acc + d * 10 ** (total - 1 - k)
            digits.append(Ch(d, tuple((n, str(n)) for n in range(10))))
        if total:
            ctx.add(acc == mag)
            ctx.model = None
        out += digits[:nint]
        if self.kind != 'i' and (prec or self.kind == 'e'):
            out.append('.')
            out += digits[nint:]
        if self.kind == 'e':
            out += list(self.exptxt)
        self.fix = out
        return out

    def number(self, integer=False):
        return mkint(self.val) if self.kind == 'i' else mkreal(self.val)

    def __repr__(self):
        return f'<{self.kind}:{self.val}>'


class Pad:
    """Blanks (or fill) next to a Num in a fixed-width field."""
    __slots__ = ('num', 'state', 'fill')

    def __init__(self, num, fill=' '):
        self.num = num
        self.state = None
        self.fill = fill

    def nonempty(self):
        if self.state is None:
            self.state = core.CTX.branch(self.num.fits())
        return self.state

    def expand(self):
        if not self.nonempty():
            return []
        n = self.num.width - len(self.num.expand())
        return [self.fill] * n


def mk(els):
    try:
        return ''.join(els)
    except TypeError:
        return SymStr(els)


def els_of(s):
    if isinstance(s, SymStr):
        return s.els
    return list(s)


def e_in(e, chars):
    if type(e) is str:
        return e in chars
    return e.test(chars)


class SymStr:
    __slots__ = ('els', '__weakref__')
    __symeq__ = True

    def __init__(self, els):
        self.els = els

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # -- normal forms ------------------------------------------------------
    def free(self):
        """Elements with pads resolved (non-empty pads become one ' ' standing for a run)."""
        out = []
        for e in self.els:
            if type(e) is Pad:
                if e.nonempty():
                    out.append(e)
            else:
                out.append(e)
        return out

    def fixed(self):
        """Elements that are all exactly one character."""
        out = []
        for e in self.els:
            if type(e) in (Num, Pad):
                out += e.expand()
            else:
                out.append(e)
        self.els = out
        return out

    def has_num(self):
        return any(type(e) in (Num, Pad) for e in self.els)

    def conc(self):
        """Fork until the text is concrete."""
        els = self.fixed()
        return ''.join(e if type(e) is str else e.conc() for e in els)

    # -- basic protocol ----------------------------------------------------
    def __len__(self):
        return len(self.fixed())

    def __iter__(self):
        for e in list(self.fixed()):
            yield mk([e])

    def __getitem__(self, k):
        if isinstance(k, slice):
            st = k.start.__index__() if k.start is not None else None
            sp = k.stop.__index__() if k.stop is not None else None
            se = k.step.__index__() if k.step is not None else None
            if se in (None, 1) and self.has_num():
                # slices that stay inside a fixed prefix / suffix
                pre = 0
                while pre < len(self.els) and type(self.els[pre]) not in (Num, Pad):
                    pre += 1
                suf = 0
                while suf < len(self.els) and type(self.els[-1 - suf]) not in (Num, Pad):
                    suf += 1
                s_ok = st is None or 0 <= st <= pre
                if s_ok and sp is not None and 0 <= sp <= pre:
                    return mk(self.els[st:sp])
                if s_ok and (sp is None or (sp < 0 and -sp <= suf)):
                    return mk(self.els[st:sp])
                if st is not None and st < 0 and -st <= suf and (sp is None or (sp < 0 and -sp <= suf)):
                    return mk(self.els[st:sp])
            return mk(self.fixed()[st:sp:se])
        k = k.__index__()
        els = self.els
        if self.has_num():
            rng = els[:k + 1] if k >= 0 else els[k:]
            if (k < 0 and -k > len(els)) or (k >= 0 and k >= len(els)) or any(type(e) in (Num, Pad) for e in rng):
                els = self.fixed()
        return mk([els[k]])

    def __add__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk(self.els + els_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SymStr)):
            return mk(els_of(o) + self.els)
        return NotImplemented

    def __mul__(self, n):
        return mk(self.els * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, args):
        return percent(self, args)

    def _occurs(self, c):
        """Per element, how often the character c occurs; None when a number must be spelled."""
        out = []
        for e in self.els:
            if type(e) is Num:
                n = e.count_char(c)
                if n is None:
                    return None
                out.append(n)
            elif type(e) is Pad:
                if e.fill == c:
                    return None
                out.append(0)
            else:
                out.append(e)
        return out

    def __contains__(self, o):
        if isinstance(o, str) and len(o) == 1 and self.has_num():
            occ = self._occurs(o)
            if occ is not None:
                return any(x > 0 if type(x) is int else e_in(x, {o}) for x in occ)
        return self.find(o) != -1

    def __hash__(self):
        return hash(self.conc())

    def __str__(self):
        unmodelled('native str() of a symbolic string')

    def __format__(self, spec):
        unmodelled('native format() of a symbolic string')

    def __repr__(self):
        return 'SymStr(' + ''.join(e if type(e) is str else repr(e) for e in self.els) + ')'

    def __bool__(self):
        return any(type(e) is not Pad for e in self.els) or len(self.free()) > 0

    # -- comparison --------------------------------------------------------
    def _eqz(self, o):
        a, b = self.els, els_of(o)
        if any(type(e) in (Num, Pad) for e in a) or (isinstance(o, SymStr) and o.has_num()):
            r = self._eq_num(o)
            if r is not None:
                return r
            a = self.fixed()
            b = o.fixed() if isinstance(o, SymStr) else list(o)
        if len(a) != len(b):
            return z3.BoolVal(False)
        cs = []
        for x, y in zip(a, b):
            c = _eq_el(x, y)
            if c is False:
                return z3.BoolVal(False)
            if c is not True:
                cs.append(c)
        return z3.simplify(z3.And(cs)) if cs else z3.BoolVal(True)

    def _eq_num(self, o):
        a = self.els
        b = els_of(o)
        # identical shape
        if len(a) == len(b) and all((type(x) is type(y)) for x, y in zip(a, b)):
            cs = []
            ok = True
            for x, y in zip(a, b):
                if type(x) is Num:
                    if x is y:
                        continue
                    if x.kind == y.kind and x.prec == y.prec and x.kind in 'ifrg' and x.width == y.width:
                        cs.append(x.val == y.val)
                    else:
                        ok = False
                        break
                elif type(x) is Pad:
                    if x.num is not y.num and not (x.num.kind == y.num.kind and x.num.prec == y.num.prec
                                                  and x.num.width == y.num.width):
                        ok = False
                        break
                else:
                    c = _eq_el(x, y)
                    if c is False:
                        return z3.BoolVal(False)
                    if c is not True:
                        cs.append(c)
            if ok:
                return z3.And(cs) if cs else z3.BoolVal(True)
        # quick rejections against plain text
        if isinstance(o, str):
            for i, x in enumerate(a):
                if type(x) is Num:
                    if i >= len(o) or o[i] not in x.alphabet:
                        return z3.BoolVal(False)
                    break
                if type(x) is Pad:
                    break
                if i >= len(o):
                    return z3.BoolVal(False)
                c = _eq_el(x, o[i])
                if c is False:
                    return z3.BoolVal(False)
                if c is not True:
                    break
            # trailing side
            for i in range(1, len(a) + 1):
                x = a[-i]
                if type(x) is Num:
                    if i > len(o) or o[-i] not in (x.alphabet if x.kind != 'f' or x.prec == 0 else DIG):
                        return z3.BoolVal(False)
                    break
                if type(x) is Pad:
                    break
                if i > len(o):
                    return z3.BoolVal(False)
                c = _eq_el(x, o[-i])
                if c is False:
                    return z3.BoolVal(False)
                if c is not True:
                    break
            # a character of o that no element can produce
            alph = set()
            for x in a:
                alph |= {x} if type(x) is str else (x.outs() if type(x) is Ch else x.alphabet if type(x) is Num else {x.fill})
            if any(c not in alph for c in o):
                return z3.BoolVal(False)
        return None

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False
        return mkbool(self._eqz(o))

    def __ne__(self, o):
        if not isinstance(o, (str, SymStr)):
            return True
        return mkbool(z3.Not(self._eqz(o)))

    def _ltz(self, o):
        a = self.fixed()
        b = o.fixed() if isinstance(o, SymStr) else list(o)
        for x, y in zip(a, b):
            if core.CTX.branch(_eqc(x, y)):
                continue
            cx = x if type(x) is str else x.conc()
            cy = y if type(y) is str else y.conc()
            return cx < cy
        return len(a) < len(b)

    def __lt__(self, o):
        return self._ltz(o)

    def __gt__(self, o):
        o = o if isinstance(o, SymStr) else SymStr(list(o))
        return o._ltz(self)

    def __le__(self, o):
        return not self.__gt__(o)

    def __ge__(self, o):
        return not self.__lt__(o)

    # -- stripping / splitting ----------------------------------------------
    def _ws(self, e, chars=None):
        if type(e) is Num:
            if chars is not None and any(c in e.alphabet for c in chars):
                unmodelled('stripping digits')
            return False
        if type(e) is Pad:
            return (e.fill in WS) if chars is None else (e.fill in chars)
        return e_in(e, WS if chars is None else chars)

    def _stripper(self, chars, l, r):
        if chars is not None:
            if isinstance(chars, SymStr):
                chars = chars.conc()
            chars = set(chars)
            if any(type(e) is Num and (e.alphabet & chars) for e in self.els):
                self.fixed()
        els = self.els
        i, j = 0, len(els)

        def gone(e):
            # a pad is stripped whether or not it is empty; one of other characters counts only when it is not
            if type(e) is Pad and not self._ws(e, chars):
                return not e.nonempty()
            return self._ws(e, chars)
        if l:
            while i < j and gone(els[i]):
                i += 1
        if r:
            while j > i and gone(els[j - 1]):
                j -= 1
        return mk(els[i:j])

    def strip(self, chars=None):
        return self._stripper(chars, True, True)

    def lstrip(self, chars=None):
        return self._stripper(chars, True, False)

    def rstrip(self, chars=None):
        return self._stripper(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        if isinstance(maxsplit, SymInt):
            maxsplit = maxsplit.__index__()
        if sep is None:
            els = self.els
            out, cur, i = [], [], 0
            while i < len(els):
                if type(els[i]) is Pad:
                    # whether a pad is empty matters only between two characters that are not blanks
                    p = els[i]
                    nxt = els[i + 1] if i + 1 < len(els) else None
                    if p.fill in WS and (not cur or nxt is None or (type(nxt) not in (Num, Pad) and self._ws(nxt))):
                        ws = True
                    elif not p.nonempty():
                        i += 1
                        continue
                    else:
                        ws = self._ws(p)
                else:
                    ws = self._ws(els[i])
                if ws:
                    if cur:
                        out.append(mk(cur))
                        cur = []
                    i += 1
                    continue
                if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                    rest = mk(els[i:])
                    out.append(rest.rstrip())
                    return out
                cur.append(els[i])
                i += 1
            if cur:
                out.append(mk(cur))
            return out
        if len(sep) == 0:
            raise ValueError('empty separator')
        out = []
        s = self
        while maxsplit < 0 or len(out) < maxsplit:
            if not isinstance(s, SymStr):
                out += s.split(sep, maxsplit - len(out) if maxsplit >= 0 else -1)
                return out
            i, n = s._findpos(sep, 0)
            if i < 0:
                break
            out.append(mk(s.els[:i]))
            s = mk(s.els[i + n:])
        out.append(s)
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit is None or maxsplit < 0:
            return self.split(sep)
        if sep is None:
            parts = self.split()
            if len(parts) <= maxsplit + 1:
                return parts
            tail = []
            s = self
            for _ in range(maxsplit):
                s = s.rstrip()
                els = els_of(s)
                j = len(els)
                while j > 0 and not self._ws(els[j - 1]):
                    j -= 1
                tail.insert(0, mk(els[j:]))
                s = SymStr(els[:j])
            return [s.rstrip()] + tail
        parts = self.split(sep)
        if len(parts) <= maxsplit + 1:
            return parts
        k = len(parts) - maxsplit
        return [sjoin(sep, parts[:k])] + parts[k:]

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (self, '', '')

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else ('', '', self)

    def splitlines(self, keepends=False):
        brk = set('\n\r\x0b\x0c\x1c\x1d\x1e\x85')
        out, cur, els, i = [], [], self.els, 0
        while i < len(els):
            e = els[i]
            if type(e) in (Num, Pad) or not e_in(e, brk):
                cur.append(e)
                i += 1
                continue
            end = [e]
            if e_in(e, {'\r'}) and i + 1 < len(els) and type(els[i + 1]) not in (Num, Pad) and e_in(els[i + 1], {'\n'}):
                i += 1
                end.append(els[i])
            out.append(mk(cur + (end if keepends else [])))
            cur = []
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    def readlines(self):
        """Lines the way a text file yields them ('\n' only)."""
        out, cur = [], []
        for e in self.els:
            cur.append(e)
            if type(e) not in (Num, Pad) and e_in(e, {'\n'}):
                out.append(mk(cur))
                cur = []
        if cur:
            out.append(mk(cur))
        return out

    # -- searching ----------------------------------------------------------
    def _findpos(self, sub, start, end=None):
        """(element index, element length) of sub at or after element start."""
        sels = els_of(sub)
        if any(type(e) in (Num, Pad) for e in sels):
            sels = SymStr(sels).fixed()
        chars = set()
        for e in sels:
            chars |= {e} if type(e) is str else e.outs()
        if any((type(e) is Num and (e.alphabet & chars)) or (type(e) is Pad and e.fill in chars) for e in self.els):
            # could overlap the text of a number
            need = True
            if len(sels) > 1:
                need = _could_overlap(self.els, sels)
            if need:
                self.fixed()
        n = len(sels)
        hi = len(self.els) if end is None else end
        for i in range(start, hi - n + 1):
            cs = []
            ok = True
            for k in range(n):
                e = self.els[i + k]
                if type(e) in (Num, Pad):
                    ok = False
                    break
                c = _eq_el(e, sels[k])
                if c is False:
                    ok = False
                    break
                if c is not True:
                    cs.append(c)
            if not ok:
                continue
            if not cs or core.CTX.branch(z3.And(cs) if len(cs) > 1 else cs[0]):
                return i, n
        return -1, n

    def find(self, sub, start=0, end=None):
        if start or end is not None:
            els = self.fixed()
            start, end, _ = slice(start, end).indices(len(els))
            return self._findpos(sub, start, end)[0]
        i, _ = self._findpos(sub, 0)
        if i > 0 and any(type(e) in (Num, Pad) for e in self.els[:i]):
            self.fixed()
            i, _ = self._findpos(sub, 0)
        return i

    def index(self, sub, start=0, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rfind(self, sub, start=0, end=None):
        els = self.fixed()
        start, end, _ = slice(start, end).indices(len(els))
        n = len(sub)
        for i in range(end - n, start - 1, -1):
            if bool(mk(els[i:i + n]) == sub):
                return i
        return -1

    def count(self, sub):
        if isinstance(sub, str) and len(sub) == 1 and self.has_num():
            occ = self._occurs(sub)
            if occ is not None:
                return sum(x if type(x) is int else int(e_in(x, {sub})) for x in occ)
        k, pos = 0, 0
        while True:
            i, n = self._findpos(sub, pos)
            if i < 0:
                return k
            k += 1
            pos = i + n

    def replace(self, old, new, count=-1):
        if not len(old):
            unmodelled('replace of the empty string')
        parts = self.split(old, count)
        return sjoin(new, parts)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(bool(self.startswith(q, start, end)) for q in p)
        s = self if not start and end is None else self[start:end]
        if not isinstance(s, SymStr):
            return SymStr(list(s)).startswith(p) if isinstance(p, SymStr) else s.startswith(p)
        return _prefix(s, p, False)

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(bool(self.endswith(q, start, end)) for q in p)
        s = self if not start and end is None else self[start:end]
        if not isinstance(s, SymStr):
            return SymStr(list(s)).endswith(p) if isinstance(p, SymStr) else s.endswith(p)
        return _prefix(s, p, True)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:-len(p)] if len(p) and self.endswith(p) else self

    # -- character classes / case -------------------------------------------
    def _map(self, f):
        out = []
        for e in self.els:
            if type(e) is str:
                out.append(f(e))
            elif type(e) is Ch:
                out.append(e.map(f))
            elif type(e) is Pad or e.kind in 'if':
                out.append(e)
            else:
                # exponent letter may change case; the value does not
                out.append(e)
        return mk([c for e in out for c in (e if type(e) is str else [e])])

    def lower(self):
        return self._map(str.lower)

    def upper(self):
        return self._map(str.upper)

    def swapcase(self):
        return self._map(str.swapcase)

    casefold = lower

    def capitalize(self):
        els = self.fixed()
        if not els:
            return self
        return mk([els[0]]).upper() + mk(els[1:]).lower()

    def title(self):
        return self.conc().title()

    def _all(self, f):
        if self.has_num():
            # a number element is never blank / alphabetic
            probe = f('1')
            if not probe or any(type(e) is Num and e.kind != 'i' for e in self.els):
                if not f('.'):
                    if any(type(e) is Num and (e.kind != 'i') for e in self.els):
                        return False
                    if not probe:
                        return False
            self.fixed()
        if not self.els:
            return False
        for e in self.els:
            if type(e) is str:
                if not f(e):
                    return False
            else:
                if not e.test({o for o in e.outs() if f(o)}):
                    return False
        return True

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isnumeric(self):
        return self._all(str.isnumeric)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isascii(self):
        return True

    def _cased(self, good, bad):
        els = self.fixed()
        seen = False
        for e in els:
            outs = {e} if type(e) is str else e.outs()
            b = {o for o in outs if bad(o)}
            if b and e_in(e, b):
                return False
            g = {o for o in outs if good(o)}
            if g and e_in(e, g):
                seen = True
        return seen

    def isupper(self):
        return self._cased(str.isupper, str.islower)

    def islower(self):
        return self._cased(str.islower, str.isupper)

    def isidentifier(self):
        return self.conc().isidentifier()

    # -- building -----------------------------------------------------------
    def join(self, it):
        return sjoin(self, list(it))

    def format(self, *a, **k):
        return sformat(self, a, k)

    def ljust(self, w, fill=' '):
        return justify(self, w, '<', fill)

    def rjust(self, w, fill=' '):
        return justify(self, w, '>', fill)

    def center(self, w, fill=' '):
        return justify(self, w, '^', fill)

    def zfill(self, w):
        if len(self) >= w:
            return self
        s = self
        if s.startswith(('+', '-')):
            return s[:1] + '0' * (w - len(s)) + s[1:]
        return '0' * (w - len(s)) + s

    def expandtabs(self, n=8):
        return self.conc().expandtabs(n)

    def encode(self, *a):
        return self.conc().encode(*a)

    def translate(self, t):
        return self.conc().translate(t)


def _could_overlap(els, sels):
    """May sub (>1 chars) match at a place that touches the inside of a Num/Pad?

    The text is read as a pattern in which a number is one or more characters of its alphabet
    and a pad one or more fill characters (or nothing); an NFA run over sub answers the question."""
    n = len(sels)
    m = len(els)
    souts = [{c} if type(c) is str else c.outs() for c in sels]
    sets = [{e} if type(e) is str else e.outs() if type(e) is Ch else e.alphabet if type(e) is Num else {e.fill}
            for e in els]
    loop = [type(e) in (Num, Pad) for e in els]
    opt = [type(e) is Pad and e.state is not True for e in els]

    def nexts(i):
        out = [i]
        while i < m and opt[i]:
            i += 1
            out.append(i)
        return out
    cur = {(i, loop[i]) for i in range(m) if sets[i] & souts[0]}
    starts = cur
    if n == 1:
        return any(t for _, t in starts)
    for k in range(1, n):
        nxt = set()
        for i, t in cur:
            cand = list(nexts(i + 1))
            if loop[i]:
                cand.append(i)
            for j in cand:
                if j < m and sets[j] & souts[k]:
                    nxt.add((j, t or loop[j]))
        cur = nxt
        if not cur:
            return False
    return any(t for _, t in cur)


def _prefix(s, p, rev):
    pels = els_of(p)
    if isinstance(p, SymStr) and p.has_num():
        pels = p.fixed()
    els = s.els
    seq = reversed(pels) if rev else pels
    cs = []
    i = 0
    n = len(els)
    for c in seq:
        if i >= n:
            return False
        e = els[-1 - i] if rev else els[i]
        if type(e) is Num:
            outs = {c} if type(c) is str else c.outs()
            if not (outs & e.alphabet):
                return False
            els = s.fixed()
            n = len(els)
            return _prefix(s, p, rev)
        if type(e) is Pad:
            s.fixed()
            return _prefix(s, p, rev)
        r = _eq_el(e, c)
        if r is False:
            return False
        if r is not True:
            cs.append(r)
        i += 1
    if not cs:
        return True
    return mkbool(z3.And(cs))


def _eq_el(x, y):
    """True / False / z3 condition for equality of two single characters."""
    if type(x) is str and type(y) is str:
        return x == y
    if type(x) is str:
        x, y = y, x
    if type(x) in (Num, Pad) or type(y) in (Num, Pad):
        return x is y
    if type(y) is str:
        c = x.cond({y})
    else:
        if x is y or (x.v.eq(y.v) and x.tab == y.tab):
            return True
        common = x.outs() & y.outs()
        if not common:
            return False
        c = z3.Or([z3.And(x.cond({o}), y.cond({o})) for o in sorted(common)])
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def _eqc(x, y):
    c = _eq_el(x, y)
    return z3.BoolVal(c) if isinstance(c, bool) else c


def sjoin(sep, parts):
    parts = list(parts)
    if type(sep) is str:
        try:
            return sep.join(parts)
        except TypeError:
            pass
    els = []
    se = els_of(sep)
    for i, p in enumerate(parts):
        if not isinstance(p, (str, SymStr)):
            raise TypeError(f'sequence item {i}: expected str instance, {type(p).__name__} found')
        if i:
            els += se
        els += els_of(p)
    return mk(els)


# --------------------------------------------------------------------------
# numbers from text


def _number_chars(s):
    s = s.strip()
    if not isinstance(s, SymStr):
        return s, None
    els = s.els
    if len(els) == 1 and type(els[0]) is Num:
        return els[0], 'num'
    if any(type(e) is Num for e in els):
        # number glued to something: only a concrete foreign character settles it cheaply
        legal = set('0123456789+-.eEdD_infatyINFATY')
        if any(type(e) is str and e not in legal for e in els):
            return None, 'bad'
        nn = sum(type(e) is Num for e in els)
        dots = sum(1 for e in els if (type(e) is Num and e.kind == 'f') or (type(e) is str and e == '.'))
        if dots > 1:
            return None, 'bad'
        els = s.fixed()
    return els, 'chars'


def to_float(s):
    x, k = _number_chars(s)
    if k is None:
        return float(x)
    if k == 'bad':
        raise ValueError('could not convert string to float')
    if k == 'num':
        return mkreal(z3.ToReal(x.val)) if x.kind == 'i' else mkreal(x.val)
    return _parse(x, True)


def to_int(s):
    x, k = _number_chars(s)
    if k is None:
        return int(x)
    if k == 'bad':
        raise ValueError('invalid literal for int() with base 10')
    if k == 'num':
        if x.kind == 'i':
            return mkint(x.val)
        raise ValueError('invalid literal for int() with base 10')
    return _parse(x, False)


def _parse(els, isfloat):
    bad = ValueError('could not convert string to float' if isfloat else 'invalid literal for int() with base 10')
    els = list(els)
    allowed = set('0123456789+-_')
    if isfloat:
        allowed |= set('.eEinfatyINFATY')
    # cheap reject
    for e in els:
        if type(e) is str and e not in allowed:
            raise bad
        if type(e) is Ch and not (e.outs() & allowed):
            raise bad
    if isfloat:
        # inf / nan words
        first = els[0]
        for w in ('nan', 'inf', 'infinity'):
            for body in ([els, els[1:]] if e_may(first, set('+-')) else [els]):
                if len(body) == len(w) and all(e_may(e, {c, c.upper()}) for e, c in zip(body, w)):
                    if all(e_in(e, {c, c.upper()}) for e, c in zip(body, w)):
                        if body is els or e_in(first, set('+-')):
                            neg = body is not els and e_in(first, {'-'})
                            return float(('-' if neg else '') + w)
    i, n = 0, len(els)
    neg = False
    if i < n and e_may(els[i], set('+-')) and e_in(els[i], set('+-')):
        neg = e_in(els[i], {'-'})
        i += 1
    digits = []
    last = None

    def dig_run():
        nonlocal i, last
        cnt = 0
        prev_us = True
        while i < n:
            e = els[i]
            if e_may(e, DIG) and e_in(e, DIG):
                digits.append(e)
                cnt += 1
                prev_us = False
                i += 1
            elif e_may(e, {'_'}) and not prev_us and i + 1 < n and e_in(e, {'_'}):
                prev_us = True
                i += 1
                if not (e_may(els[i], DIG) and e_in(els[i], DIG)):
                    raise bad
            else:
                break
        return cnt

    n1 = dig_run()
    frac = 0
    if isfloat and i < n and e_may(els[i], {'.'}) and e_in(els[i], {'.'}):
        i += 1
        frac = dig_run()
    if n1 + frac == 0:
        raise bad
    exp = 0
    if isfloat and i < n and e_may(els[i], set('eE')) and e_in(els[i], set('eE')):
        i += 1
        eneg = False
        if i < n and e_may(els[i], set('+-')) and e_in(els[i], set('+-')):
            eneg = e_in(els[i], {'-'})
            i += 1
        txt = ''
        while i < n and e_may(els[i], DIG) and e_in(els[i], DIG):
            e = els[i]
            txt += e if type(e) is str else e.conc()
            i += 1
        if not txt:
            raise bad
        exp = -int(txt) if eneg else int(txt)
    if i < n:
        raise bad
    acc = z3.IntVal(0)
    for k, e in enumerate(digits):
        acc = acc + dig_val(e) * 10 ** (len(digits) - 1 - k)
    if neg:
        acc = -acc
    if not isfloat:
        return mkint(acc)
    sc = Fraction(10) ** (exp - frac)
    return mkreal(z3.ToReal(z3.simplify(acc)) * z3.RealVal(sc))


def e_may(e, chars):
    return e in chars if type(e) is str else bool(e.outs() & chars)


def dig_val(e):
    if type(e) is str:
        return z3.IntVal(int(e))
    live = [(c, o) for c, o in e.live() if o in DIG]
    if all(c == int(o) for c, o in live):
        return e.v
    if all(c - 48 == int(o) for c, o in live):
        return e.v - 48
    r = z3.IntVal(int(live[-1][1]))
    for c, o in live[:-1]:
        r = z3.If(e.v == c, z3.IntVal(int(o)), r)
    return r


# --------------------------------------------------------------------------
# text from numbers

_SPEC = _re.compile(r'^(?:(.)?([<>=^]))?([-+ ])?(z)?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$', _re.S)


def _grid(z, p):
    """Is the Real term z an integer multiple of 10**-p by its shape alone?"""
    sc = 10 ** p
    z = z3.simplify(z)

    def lin(t):
        if z3.is_rational_value(t):
            f = t.as_fraction() * sc
            return f.denominator == 1
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return True
        if k == z3.Z3_OP_ADD:
            return all(lin(c) for c in t.children())
        if k == z3.Z3_OP_SUB:
            return all(lin(c) for c in t.children())
        if k == z3.Z3_OP_UMINUS:
            return lin(t.arg(0))
        if k == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_rational_value(t.arg(0)):
            f = t.arg(0).as_fraction() * sc
            a = t.arg(1)
            return f.denominator == 1 and (a.decl().kind() == z3.Z3_OP_TO_REAL)
        return False
    return lin(z)


def round_to(x, p):
    """z3 Real: x rounded to p decimals (ties left open)."""
    if _grid(x, p):
        return x
    ctx = core.CTX
    cache = ctx.__dict__.setdefault('roundings', {})
    key = (x.get_id(), p)
    if key in cache:
        return cache[key][0]
    i = ctx.fresh('fmt', 'int')
    sc = z3.RealVal(10 ** p)
    half = z3.RealVal(Fraction(1, 2))
    ctx.add(z3.And(x * sc - z3.ToReal(i) <= half, z3.ToReal(i) - x * sc <= half))
    ctx.model = None
    r = z3.ToReal(i) * z3.RealVal(Fraction(1, 10 ** p))
    cache[key] = (r, x)
    return r


def num_text(v, kind, prec, width, align='>', fill=' ', plus=False):
    """Text of a symbolic number in a fixed-point / integer field."""
    if kind == 'i':
        n = Num(v.z, 'i', width=width, plus=plus)
    else:
        z = zreal(v)
        n = Num(round_to(z, prec), 'f', prec, neg=z3.simplify(z < 0), width=width, plus=plus)
    if not width:
        return mk([n])
    if fill == '0' and align == '=':
        # zero padded: digits only matter when spelled
        n2 = SymStr([n])
        els = n2.fixed()
        k = width - len(els)
        sign = 1 if els and type(els[0]) is str and els[0] in '+-' else 0
        return mk(els[:sign] + ['0'] * max(k, 0) + els[sign:])
    if align == '>' or align == '=':
        return mk([Pad(n, fill), n])
    if align == '<':
        return mk([n, Pad(n, fill)])
    unmodelled('centred number')


def free_text(v):
    """str(x) / repr(x) of a symbolic number."""
    if isinstance(v, SymInt):
        return mk([Num(v.z, 'i')])
    z = v.z
    a = z3.If(z < 0, -z, z)
    # outside this range repr() uses exponent notation
    if core.CTX.branch(z3.Or(z == 0, z3.And(a >= z3.RealVal(Fraction(1, 10000)), a < 10 ** 16))):
        n = Num(z, 'r')
        n.prec = 'pos'
        return mk([n])
    n = Num(z, 'g')
    return mk([n])


def fmt_value(v, spec, conv=None):
    if isinstance(spec, SymStr):
        spec = spec.conc()
    if conv == 'r' and isinstance(v, (SymStr,)):
        return "'" + v + "'"
    if isinstance(v, SymBool):
        v = bool(v)
    if is_npnum(v) and not isinstance(v, (int, float, str)):
        v = v.item()
    if isinstance(v, (list, tuple, dict)) and not spec:
        return to_str(v)
    if not isinstance(v, (SymNum, SymStr)):
        if conv == 'r':
            v = repr(v)
        elif conv == 's':
            v = to_str(v)
            if isinstance(v, SymStr):
                return fmt_value(v, spec)
        return format(v, spec)
    m = _SPEC.match(spec)
    if not m:
        raise ValueError('Invalid format specifier')
    fill, align, sign, _, alt, zero, width, comma, prec, typ = m.groups()
    width = int(width) if width else 0
    if isinstance(v, SymStr):
        if typ not in (None, 's'):
            raise ValueError(f"Unknown format code '{typ}' for object of type 'str'")
        s = v if prec is None else v[:int(prec)]
        return justify(s, width, align or '<', fill or ' ') if width else s
    if conv in ('s', 'r'):
        s = free_text(v)
        return fmt_value(s, spec)
    if zero and not align:
        fill, align = '0', '='
    fill = fill or ' '
    align = align or '>'
    plus = sign == '+'
    if sign == ' ' or comma:
        unmodelled('format sign/comma option')
    if isinstance(v, SymInt):
        if typ in (None, 'd', 'n'):
            return num_text(v, 'i', 0, width, align, fill, plus)
        if typ in ('f', 'F', 'e', 'E', 'g', 'G'):
            v = mkreal(z3.ToReal(v.z))
            if not isinstance(v, SymReal):
                return format(v, spec)
        else:
            unmodelled(f'format type {typ}')
    if typ == 'd':
        raise ValueError("Unknown format code 'd' for object of type 'float'")
    if typ in ('f', 'F'):
        return num_text(v, 'f', 6 if prec is None else int(prec), width, align, fill, plus)
    if typ is None and prec is None:
        s = free_text(v)
        if width:
            if align == '<':
                return s + ' '  # width of repr text is open; at least keep it separate
            unmodelled('width on free-format float')
        return s
    if typ in ('e', 'E'):
        p = 6 if prec is None else int(prec)
        z = zreal(v)
        r = core.CTX.fresh('efmt', 'real')
        a = z3.If(z < 0, -z, z)
        tol = a * z3.RealVal(Fraction(1, 2 * 10 ** p))
        core.CTX.add(z3.And(r - z <= tol, z - r <= tol))
        core.CTX.model = None
        n = Num(r, 'e', p, neg=z3.simplify(z < 0), width=width, plus=plus)
        return mk([n]) if width <= p + 6 else mk([' ', n])
    if typ in ('g', None) and not (alt or plus):
        s = g_text(zreal(v), 6 if prec is None else max(int(prec), 1), typ)
        if width:
            if not (isinstance(s, SymStr) and s.els and s.els[0].kind == 'i'):
                unmodelled('width on free-format float')
            s.els[0].width = width
            return mk([s.els[0], Pad(s.els[0], fill)] if align == '<' else [Pad(s.els[0], fill), s.els[0]])
        return s
    unmodelled(f'float format {spec!r}')


def g_text(z, p, typ='g'):
    """p significant digits ('{:.pg}', or '{:.p}' when typ is None)."""
    ctx = core.CTX
    if ctx.branch(z == 0):
        return '0' if typ else '0.0'
    a = z3.If(z < 0, -z, z)
    k = 0
    while not ctx.branch(a < z3.RealVal(Fraction(10)**(k + 1))):
        k += 1
        if k > 20:
            unmodelled('huge number in general format')
    while k <= 0 and not ctx.branch(a >= z3.RealVal(Fraction(10)**k)):
        k -= 1
        if k < -20:
            unmodelled('tiny number in general format')
    q = p - 1 - k
    if q < 0:
        r = round_to(z * z3.RealVal(Fraction(10)**q), 0) * z3.RealVal(Fraction(10)**-q)
    else:
        r = round_to(z, q)
    r = z3.simplify(r)
    if ctx.branch(z3.Or(r >= z3.RealVal(Fraction(10)**(k + 1)), r <= -z3.RealVal(Fraction(10)**(k + 1)))):
        k += 1
    if k < -4 or k >= (p if typ else p - 1):
        return mk([Num(r, 'g')])
    if typ and ctx.branch(z3.IsInt(r)):
        return mk([Num(z3.simplify(z3.ToInt(r)), 'i')])
    n = Num(r, 'r')
    n.prec = 'pos'
    return mk([n])


def justify(s, w, align, fill):
    if not isinstance(s, SymStr):
        return {'<': s.ljust, '>': s.rjust, '^': s.center}[align](w, fill)
    n = len(s)
    k = w - n
    if k <= 0:
        return s
    if align == '<':
        return s + fill * k
    if align == '>':
        return fill * k + s
    return fill * (k // 2) + s + fill * (k - k // 2)


def sformat(tmpl, args, kw):
    if isinstance(tmpl, SymStr):
        tmpl = tmpl.conc()
    els = []
    auto = 0
    fm = _string.Formatter()
    for lit, field, spec, conv in fm.parse(tmpl):
        els += list(lit)
        if field is None:
            continue
        if field == '' or field[0] in '.[':
            field = str(auto) + field
            auto += 1
        obj, _ = fm.get_field(field, args, kw)
        if spec and '{' in spec:
            out = ''
            for l2, f2, _s2, _c2 in fm.parse(spec):
                out += l2
                if f2 is not None:
                    if f2 == '':
                        f2 = str(auto)
                        auto += 1
                    o2, _ = fm.get_field(f2, args, kw)
                    out += str(o2.__index__() if isinstance(o2, SymInt) else o2)
            spec = out
        els += els_of(fmt_value(obj, spec or '', conv))
    return mk(els)


_PCT = _re.compile(r'%(?:\(([^)]*)\))?([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?[hlL]?([diouxXeEfFgGcrsa%])')


def percent(tmpl, args):
    if isinstance(tmpl, SymStr):
        tmpl = tmpl.conc()
    els, pos, k = [], 0, 0
    tup = args if isinstance(args, tuple) else (args,)
    for m in _PCT.finditer(tmpl):
        els += list(tmpl[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, typ = m.groups()
        if typ == '%':
            els.append('%')
            continue
        if width == '*':
            width = str(int(tup[k]))
            k += 1
        if prec == '*':
            prec = str(int(tup[k]))
            k += 1
        if name is not None:
            v = args[name]
        else:
            v = tup[k]
            k += 1
        if not isinstance(v, (SymNum, SymStr, SymBool)):
            els += list(('%' + flags + (width or '') + ('.' + prec if prec is not None else '') + typ) % (v,))
            continue
        if typ in 'diu':
            if isinstance(v, SymReal):
                v = core.trunc(v)
            t = 'd'
        elif typ in 'sr':
            v = v if isinstance(v, SymStr) else to_str(v)
            t = 's'
        else:
            t = typ
        left = '-' in flags
        spec = ('<' if left else ('>' if t == 's' else '')) + ('+' if '+' in flags else '')
        spec += ('0' if '0' in flags and not left and t != 's' else '') + (width or '')
        spec += ('.' + prec if prec is not None and t != 'd' else '') + t
        els += els_of(fmt_value(v, spec))
    els += list(tmpl[pos:])
    return mk(els)


def has_sym(o, depth=3):
    if isinstance(o, (SymNum, SymStr, SymBool)):
        return True
    if depth and isinstance(o, (list, tuple, set)):
        return any(has_sym(x, depth - 1) for x in o)
    if depth and isinstance(o, dict):
        return any(has_sym(x, depth - 1) for kv in o.items() for x in kv)
    return False


def to_str(o):
    if isinstance(o, SymStr):
        return o
    if isinstance(o, SymBool):
        return str(bool(o))
    if isinstance(o, SymNum):
        return free_text(o)
    if has_sym(o):
        if isinstance(o, (list, tuple)):
            b = ('[', ']') if isinstance(o, list) else ('(', ')')
            parts = [("'" + x + "'") if isinstance(x, (str, SymStr)) else to_str(x) for x in o]
            return b[0] + sjoin(', ', parts) + (',' if isinstance(o, tuple) and len(o) == 1 else '') + b[1]
        if isinstance(o, dict):
            return '<dict>'
    return str(o)


# --------------------------------------------------------------------------
# methods of *native* strings called with symbolic arguments


def native_method(recv, name, args, kw):
    if name == 'join':
        parts = list(args[0])
        if has_sym(parts, 1):
            return sjoin(recv, parts)
        return recv.join(parts)
    if name == 'format':
        if any(has_sym(a) for a in args) or any(has_sym(a) for a in kw.values()):
            return sformat(recv, args, kw)
        return recv.format(*args, **kw)
    if any(has_sym(a) for a in args) or any(has_sym(a) for a in kw.values()):
        s = SymStr(list(recv))
        args = [a.__index__() if isinstance(a, SymInt) else a for a in args]
        r = getattr(s, name)(*args, **kw)
        if isinstance(r, SymStr):
            return mk(r.els)
        if isinstance(r, list):
            return [mk(x.els) if isinstance(x, SymStr) else x for x in r]
        return r
    return getattr(recv, name)(*args, **kw)
