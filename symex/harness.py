"""Dual-mode harness API: the same harness runs symbolically and, for replay and
engine validation, concretely against the unmodified package."""
import copy
import io
import math
import os
import shutil
import sys
import tempfile
from decimal import Decimal
from fractions import Fraction

import numpy as np
import z3

from . import arr, core, loader
from .core import Ctx, Signal, SymBool, SymInt, SymNum, SymReal, Violation, mkbool, mkint, mkreal, zreal
from .strs import Ch, Num, Pad, SymStr, els_of, mk, sjoin, to_str


class Outcome:
    """What a call did: kind 'ok' | 'exit' | 'exc'."""

    def __init__(self, kind, value=None, code=None, exc=None):
        self.kind, self.value, self.code, self.exc = kind, value, code, exc

    @property
    def ok(self):
        return self.kind == 'ok'

    def tag(self):
        return 'ok' if self.ok else f'exit:{self.code}' if self.kind == 'exit' else f'exc:{self.exc}'

    def __repr__(self):
        return f'<{self.tag()} {self.value!r}>'


class CheckFailed(Exception):
    """Concrete mode: an assertion of the harness failed."""

    def __init__(self, label, detail=''):
        super().__init__(f'{label}: {detail}')
        self.label = label
        self.detail = detail


class Skip(Exception):
    """Concrete mode: assumption not met."""


class Tok:
    """A number as it stands in a document: its text and its value."""
    __slots__ = ('text', 'val')

    def __init__(self, text, val):
        self.text, self.val = text, val


class Base:
    def kind(self, x):
        """Type of a value the way a user sees it."""
        if isinstance(x, (bool, SymBool)):
            return 'bool'
        if isinstance(x, (int, SymInt, np.integer)):
            return 'int'
        if isinstance(x, (float, SymReal, np.floating)):
            return 'float'
        if isinstance(x, (str, SymStr)):
            return 'str'
        return 'none' if x is None else 'list' if isinstance(x, list) else type(x).__name__

    def isin(self, c, chars):
        """Is the one-character string c one of chars? (Decided: forks in symbolic mode.)"""
        for x in chars:
            if c == x:
                return True
        return False

    def join(self, sep, parts):
        return sjoin(sep, parts)

    def lines(self, parts, end='\n'):
        return sjoin('', [sjoin('', [p, end]) for p in parts])

    def row(self, *parts):
        """Cells separated by one blank, with one leading blank."""
        return sjoin('', [sjoin('', [' ', p.text if isinstance(p, Tok) else p]) for p in parts])


_ONCE = {}


def once(key, make):
    """Terms that every path of a harness uses, made once per process."""
    v = _ONCE.get(key)
    if v is None:
        v = _ONCE[key] = make()
    return v


def grid_terms(i, p):
    val = z3.ToReal(i) * z3.RealVal(Fraction(10)**-p)
    return val, z3.simplify(val), z3.simplify(i < 0)


class SymH(Base):
    """Symbolic mode."""
    symbolic = True

    def __init__(self, ctx, loaded, seed=1):
        self.ctx = ctx
        self.loaded = loaded
        self.seed = seed
        self.trace = []
        self.reached = set()
        self._vn = 0

    # inputs ---------------------------------------------------------------
    def _new(self, name, kind, **meta):
        if name in self.ctx.inputs:
            raise RuntimeError(f'duplicate input {name}')
        v = once(name, lambda: z3.Int(name))
        self.ctx.inputs[name] = (v, kind, meta)
        self.ctx.input_order.append(name)
        return v

    def choice(self, name, options):
        """Any of the options (the solver enumerates the feasible ones)."""
        options = list(options)
        v = self._new(name, 'choice', n=len(options))
        if len(options) == 1:
            self.ctx.add(v == 0)
            return options[0]
        self.ctx.assume(z3.And(v >= 0, v < len(options)))
        return options[self.ctx.concretise(v)]

    def size(self, name, lo, hi):
        """A concrete size, forked over the whole range."""
        return self.choice(name, range(lo, hi + 1))

    def int(self, name, lo, hi):
        v = self._new(name, 'int', lo=lo, hi=hi, spread=True)
        self.ctx.assume(z3.And(v >= lo, v <= hi))
        return mkint(v)

    def real(self, name, p=6, lo=-100, hi=100):
        """A symbolic real on the 10**-p grid (a Python float in concrete mode)."""
        i = self._grid(name, p, lo, hi)
        return mkreal(z3.ToReal(i) * z3.RealVal(Fraction(1, 10**p)))

    def _grid(self, name, p, lo, hi):
        lo, hi = math.ceil(Fraction(str(lo)) * 10**p), math.floor(Fraction(str(hi)) * 10**p)
        i = self._new(name, 'num', lo=lo, hi=hi, spread=True, p=p)
        self._between(i, name, lo, hi)
        return i

    def _between(self, i, name, lo, hi):
        self.ctx.assume(once((name, lo, hi), lambda: z3.simplify(z3.And(i >= lo, i <= hi))), True)

    def num(self, name, p=8, lo=-9, hi=9, w=0):
        """Fixed-point number token (p decimals; p=0 prints no point when kind is int)."""
        i = self._grid(name, p, lo, hi)
        val, sval, neg = once((name, p), lambda: grid_terms(i, p))
        n = Num(sval, 'f', p, neg=neg, width=w)
        els = [n]
        if w:
            pad = Pad(n)
            m = max(len(str(abs(int(lo)))) + (1 if lo < 0 else 0), len(str(abs(int(hi)))))
            if m + 1 + p < w:
                pad.state = True
            els = [pad, n]
        return Tok(mk(els), mkreal(val))

    def inum(self, name, lo=0, hi=99, w=0):
        """Integer token."""
        i = self._new(name, 'int', lo=lo, hi=hi, spread=True)
        self._between(i, name, lo, hi)
        n = Num(i, 'i', width=w)
        els = [n]
        if w:
            pad = Pad(n)
            if max(len(str(lo)), len(str(hi))) < w:
                pad.state = True
            els = [pad, n]
        return Tok(mk(els), mkint(i))

    def enum(self, name, p=8, exp=0, lead=0, sign=True, letter='E'):
        """Exponent-format token: d.ddd E+xx with the exponent fixed by the caller (lead=0: 0.ddd)."""
        hi = 10**(p + (1 if lead else 0)) - 1
        lo = -hi if sign else 0
        i = self._new(name, 'num', lo=lo, hi=hi, spread=True, p=p)
        self._between(i, name, lo, hi)
        _, val, neg = once((name, p - exp), lambda: grid_terms(i, p - exp))
        n = Num(val, 'e', p, neg=neg, mant=i, exp=exp, exptxt=f'{letter}{exp:+03d}')
        return Tok(mk([n]), mkreal(val))

    def char(self, name, alphabet):
        codes = sorted({ord(c) for c in alphabet})
        if len(codes) == 1:
            self._new(name, 'char', codes=codes)
            self.ctx.add(self.ctx.inputs[name][0] == codes[0])
            return chr(codes[0])
        v = self._new(name, 'char', codes=codes)
        self.ctx.assume(z3.Or([v == c for c in codes]))
        return SymStr([Ch(v, tuple((c, chr(c)) for c in codes))])

    def chars(self, name, n, alphabet):
        return sjoin('', [self.char(f'{name}{k}', alphabet) for k in range(n)])

    def anycase(self, name, word):
        """The word with every letter independently in either case."""
        return sjoin('', [self.char(f'{name}{k}', c.lower() + c.upper()) if c.isalpha() else c
                          for k, c in enumerate(word)])

    # environment ----------------------------------------------------------
    def mod(self, name):
        return self.loaded.load(f'parsevasp.{name}')

    def file(self, text):
        return loader.VFile(text)

    def path(self, text, name=None):
        self._vn += 1
        p = f'{loader.VROOT}f{self._vn}' + (name or '')
        loader.VFS[p] = list(els_of(text))
        return p

    def outpath(self):
        self._vn += 1
        return f'{loader.VROOT}out{self._vn}'

    def badpath(self, kind='missing'):
        return loader.VDIR if kind == 'directory' else f'{loader.VROOT}absent' if kind == 'absent' else f'{loader.VROOT}nodir/missing'

    def contents(self, path):
        return loader.universal(loader.VFS[path]) if path in loader.VFS else None

    def new_path(self):
        self._vn += 1
        return f'{loader.VROOT}f{self._vn}'

    def xml(self, text, how='path', cut=None):
        """A source holding an XML document: path or binary handler; cut: the text before a chunk end."""
        from . import xmlshim
        return xmlshim.sym_source(self, text, how, cut)

    @property
    def logger(self):
        return loader.NULLLOG

    def run(self, fn):
        try:
            return Outcome('ok', fn())
        except SystemExit as e:
            c = e.code
            return Outcome('exit', code=c if isinstance(c, int) else (0 if c is None else 1))
        except Exception as e:  # noqa
            if type(e).__name__.startswith('_UFunc') or 'Sym' in str(e) or 'dtype(\'O\')' in str(e):
                core.unmodelled(f'library call outside the models: {type(e).__name__}: {e}')
            self.last_exc = e
            return Outcome('exc', exc=type(e).__name__)

    # arithmetic helpers shared by oracles -----------------------------------
    def to_float(self, s):
        return loader.Float(s)

    def true(self, c):
        """Decide a condition (forks in symbolic mode)."""
        return bool(c)

    def isin(self, c, chars):
        if isinstance(c, str):
            return c in chars
        return c.els[0].test(set(chars))

    def any(self, cs):
        return mkbool(z3.Or([core.zbool(c) for c in cs]))

    def all(self, cs):
        return mkbool(z3.And([core.zbool(c) for c in cs]))

    def apart(self, x, m=1):
        """Assume that x is at least m away from zero."""
        z = z3.simplify(zreal(x), som=True)
        self.ctx.assume(z3.Or(z > m, z < -m))

    def assume(self, c):
        if isinstance(c, SymBool):
            self.ctx.assume(c.z)
        elif not c:
            raise core.Infeasible()

    # assertions -----------------------------------------------------------
    def check(self, cond, label):
        self.reached.add(label)
        self.trace.append((label, cond))
        self.ctx.prove(core.zbool(cond), label)

    def fail(self, label, detail=''):
        self.check(False, label)

    def eq(self, actual, expected, label, tol=None):
        self.reached.add(label)
        self.trace.append((label, actual))
        cs = []
        ok = sym_equal(actual, expected, cs, tol)
        if not ok:
            self.ctx.prove(z3.BoolVal(False), label)
        self.ctx.trivial += not cs
        diffs = [c.arg(0) for c in cs if z3.is_eq(c) and z3.is_arith(c.arg(0)) and z3.is_rational_value(c.arg(1))]
        self.ctx.prove(z3.And(cs) if cs else z3.BoolVal(True), label, diffs)

    def eqs(self, actual, expected, label):
        """The entries of two dictionaries, in one query unless that one fails."""
        cs = []
        if set(actual) == set(expected) and all([sym_equal(actual[k], expected[k], cs) for k in expected]):
            self.reached.update(expected)
            self.trace.append((label, dict(actual)))
            try:
                return self.ctx.prove(z3.And(cs) if cs else z3.BoolVal(True), label)
            except core.Violation:
                self.trace.pop()
        for k in expected:
            self.eq(actual[k], expected[k], k)
        self.ctx.prove(z3.BoolVal(set(actual) == set(expected)), label)


_DIV = {}


def has_div(z):
    k = z.get_id()
    if k in _DIV and _DIV[k][0].eq(z):
        return _DIV[k][1]
    if z3.is_app_of(z, z3.Z3_OP_DIV) and not z3.is_rational_value(z.arg(1)):
        r = True
    elif z.decl().kind() in _RATOPS:
        r = any(has_div(c) for c in z.children())
    else:
        r = False
    _DIV[k] = (z, r)
    return r


_RATOPS = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL, z3.Z3_OP_DIV)


def ratform(z):
    """Numerator and denominator polynomials of an arithmetic term. The engine has already
    decided on this path that every divisor is nonzero."""
    if not has_div(z):
        return z, None
    k = z.decl().kind()
    cs = [ratform(c) for c in z.children()]
    if k == z3.Z3_OP_DIV:
        (n1, d1), (n2, d2) = cs
        n = n1 if d2 is None else n1 * d2
        d = n2 if d1 is None else n2 * d1
        return n, z3.simplify(d, som=True)
    if k == z3.Z3_OP_UMINUS:
        return -cs[0][0], cs[0][1]
    n, d = cs[0]
    for n2, d2 in cs[1:]:
        if k == z3.Z3_OP_MUL:
            n, d = n * n2, d2 if d is None else d if d2 is None else d * d2
        else:
            if d is not None and d2 is not None and d.eq(d2):
                pass
            else:
                n, n2, d = (n if d2 is None else n * d2), (n2 if d is None else n2 * d), \
                    (d2 if d is None else d if d2 is None else d * d2)
            n = n + n2 if k == z3.Z3_OP_ADD else n - n2
        if d is not None:
            d = z3.simplify(d, som=True)
    return n, d


def difference(za, zb):
    """A term that is zero exactly when za equals zb."""
    d = z3.simplify(za - zb, som=True)
    if has_div(za) or has_div(zb):
        n, _ = ratform(za - zb)
        d = z3.simplify(n, som=True)
    return d


def plain(x):
    """Arrays and tuples to lists, numpy scalars to Python."""
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return {n: plain(x[n]) for n in x.dtype.names}
        return plain(np.ndarray.tolist(x.view(np.ndarray)))
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict) or (hasattr(x, 'items') and hasattr(x, 'keys')):
        return {(k.item() if isinstance(k, np.generic) else k): plain(v) for k, v in x.items()}
    if isinstance(x, Tok):
        return x.val
    return x


EXACT = 'exact'     # a tolerance: no rounding allowed, not even of constants


def sym_equal(a, b, cs, tol=None):
    a, b = plain(a), plain(b)
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return all([sym_equal(x, y, cs, tol) for x, y in zip(a, b)])
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False
        return all([sym_equal(a[k], b[k], cs, tol) for k in a])
    if a is None or b is None:
        return a is b
    sa, sb = isinstance(a, (str, SymStr)), isinstance(b, (str, SymStr))
    if sa or sb:
        if not (sa and sb):
            return False
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        r = (a if isinstance(a, SymStr) else b) == (b if isinstance(a, SymStr) else a)
        if isinstance(r, bool):
            return r
        cs.append(r.z)
        return True
    ba, bb = isinstance(a, (bool, SymBool)), isinstance(b, (bool, SymBool))
    if ba or bb:
        if not (ba and bb):
            return False
        cs.append(core.zbool(a) == core.zbool(b))
        return True
    za, zb = zreal(a) if not _nan(a) else None, zreal(b) if not _nan(b) else None
    if za is None or zb is None:
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b or (a != a and b != b)
        if isinstance(a, SymNum) or isinstance(b, SymNum):
            return False
        return a == b
    if tol == EXACT:
        if not isinstance(a, SymNum) and not isinstance(b, SymNum):
            return a == b
        tol = None
    if tol is None and not isinstance(a, SymNum) and not isinstance(b, SymNum):
        # both concrete: one side may have been through native floating point
        return close(a, b)
    if tol is None:
        if za.eq(zb):
            cs.append(za == zb)
            return True
        d = difference(za, zb)
        if z3.is_rational_value(d) and 0 < abs(d.as_fraction()) < Fraction(1, 10**9):
            # constants that went through native floating point
            return True
        cs.append(d == 0)
    else:
        t = zreal(tol)
        d = z3.simplify(za - zb, som=True)
        cs.append(z3.And(d <= t, -d <= t))
    return True


def _nan(x):
    return isinstance(x, float) and (x != x or x in (float('inf'), float('-inf')))


def close(a, b, tol=None):
    if a == b:
        return True
    if tol is not None:
        return abs(a - b) <= float(tol) + 1e-9 + 1e-9 * abs(b)
    return abs(a - b) <= 1e-9 + 1e-8 * max(abs(a), abs(b))


def conc_equal(a, b, tol=None):
    a, b = plain(a), plain(b)
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(conc_equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(conc_equal(a[k], b[k], tol) for k in a)
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if tol == EXACT:
            return a == b
        return close(a, b, tol)
    return a == b


class ConcH(Base):
    """Concrete mode: the real package, inputs from an assignment."""
    symbolic = False

    def __init__(self, assignment):
        self.a = assignment
        self.trace = []
        self.parsed = False
        self._tmp = None
        self._open = []

    def cleanup(self):
        for f in self._open:
            f.close()
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    def _get(self, name, default):
        return self.a.get(name, default)

    def choice(self, name, options):
        return list(options)[self._get(name, 0)]

    def size(self, name, lo, hi):
        return self.choice(name, range(lo, hi + 1))

    def int(self, name, lo, hi):
        return self._get(name, lo)

    def real(self, name, p=6, lo=-100, hi=100):
        return float(Fraction(self._get(name, 0), 10**p))

    def num(self, name, p=8, lo=-9, hi=9, w=0):
        i = self._get(name, math.ceil(Fraction(str(lo)) * 10**p))
        t = fixed_text(i, p)
        return Tok(t.rjust(w), float(t))

    def inum(self, name, lo=0, hi=99, w=0):
        i = self._get(name, lo)
        return Tok(str(i).rjust(w), i)

    def enum(self, name, p=8, exp=0, lead=0, sign=True, letter='E'):
        i = self._get(name, 0)
        t = fixed_text(i, p) + f'{letter}{exp:+03d}'
        return Tok(t, float(t.replace('D', 'E')))

    def char(self, name, alphabet):
        return chr(self._get(name, min(ord(c) for c in alphabet)))

    def chars(self, name, n, alphabet):
        return ''.join(self.char(f'{name}{k}', alphabet) for k in range(n))

    def anycase(self, name, word):
        return ''.join(self.char(f'{name}{k}', c.lower() + c.upper()) if c.isalpha() else c for k, c in enumerate(word))

    def mod(self, name):
        import importlib
        m = importlib.import_module(f'parsevasp.{name}')
        self.parsed = True
        return m

    def file(self, text):
        return io.StringIO(text)

    def _dir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='vpcheck')
        return self._tmp

    def path(self, text, name=None):
        d = self._dir()
        p = os.path.join(d, f'f{len(os.listdir(d))}' + (name or ''))
        with open(p, 'w', encoding='utf8', newline='') as f:
            f.write(text)
        return p

    def outpath(self):
        d = self._dir()
        return os.path.join(d, f'out{len(os.listdir(d))}')

    def badpath(self, kind='missing'):
        if kind == 'directory':
            d = os.path.join(self._dir(), 'directory')
            os.makedirs(d, exist_ok=True)
            return d
        return os.path.join(self._dir(), 'absent') if kind == 'absent' else os.path.join(self._dir(), 'nodir', 'missing')

    def contents(self, path):
        if not os.path.exists(path):
            return None
        with open(path, encoding='utf8') as f:
            return f.read()

    def xml(self, text, how='path', cut=None):
        from . import xmlshim
        return xmlshim.conc_source(self, text, how, cut)

    @property
    def logger(self):
        return loader.NULLLOG

    def run(self, fn):
        try:
            return Outcome('ok', fn())
        except SystemExit as e:
            c = e.code
            return Outcome('exit', code=c if isinstance(c, int) else (0 if c is None else 1))
        except (CheckFailed, Skip):
            raise
        except Exception as e:  # noqa
            self.last_exc = e
            return Outcome('exc', exc=type(e).__name__)

    def to_float(self, s):
        return float(s)

    def true(self, c):
        return bool(c)

    def any(self, cs):
        return any(cs)

    def all(self, cs):
        return all(cs)

    def apart(self, x, m=1):
        self.assume(abs(x) > m)

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, cond, label):
        self.trace.append((label, bool(cond)))
        if not cond:
            raise CheckFailed(label, getattr(self, 'last_exc', ''))

    def fail(self, label, detail=''):
        raise CheckFailed(label, detail)

    def eq(self, actual, expected, label, tol=None):
        self.trace.append((label, copy.deepcopy(plain(actual))))
        if not conc_equal(actual, expected, tol):
            raise CheckFailed(label, f'got {short(plain(actual))}, expected {short(plain(expected))}')

    def eqs(self, actual, expected, label):
        for k in expected:
            if k not in actual or not conc_equal(actual[k], expected[k]):
                raise CheckFailed(k, f'got {short(plain(actual.get(k)))}, expected {short(plain(expected[k]))}')
        if set(actual) != set(expected):
            raise CheckFailed(label, f'got {sorted(actual)}, expected {sorted(expected)}')
        self.trace.append((label, copy.deepcopy(plain(actual))))


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def fixed_text(i, p):
    s = '-' if i < 0 else ''
    d = str(abs(i)).rjust(p + 1, '0')
    if p == 0:
        return s + d
    return f'{s}{d[:-p]}.{d[-p:]}'


# ------------------------------------------------------------ model evaluation


def meval(x, model):
    """A symbolic structure under a model (for validating the engine)."""
    x = plain(x)
    if isinstance(x, list):
        return [meval(v, model) for v in x]
    if isinstance(x, dict):
        return {k: meval(v, model) for k, v in x.items()}
    if isinstance(x, SymBool):
        return z3.is_true(model.eval(x.z, model_completion=True))
    if isinstance(x, SymInt):
        return model.eval(x.z, model_completion=True).as_long()
    if isinstance(x, SymReal):
        return zval(model.eval(x.z, model_completion=True))
    if isinstance(x, SymStr):
        out = ''
        for e in x.els:
            if type(e) is str:
                out += e
            elif type(e) is Ch:
                c = model.eval(e.v, model_completion=True).as_long()
                out += dict(e.tab).get(c, '?')
            elif type(e) is Pad:
                out += ' '
            else:
                v = model.eval(e.val, model_completion=True)
                out += '#'   # digits are compared through the parsed values instead
        return out
    return x


def zval(v):
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_int_value(v):
        return v.as_long()
    return None


def loosely(a, b):
    """Engine validation: symbolic value under the model vs the real run."""
    if isinstance(a, str) and isinstance(b, str):
        return '#' in a or a == b
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(loosely(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(loosely(a[k], b[k]) for k in a)
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return (a != a and b != b) or abs(a - b) <= 1e-6 + 1e-6 * max(abs(a), abs(b))
    return a is b or a == b or a is None
