"""Path contexts, symbolic scalars and the branching discipline.

A *path* is one re-execution of a harness.  Every decision that depends on a
symbolic value goes through ``Ctx.branch``: the solver is asked which outcomes
are feasible under the path condition, the run continues with one of them and
the other is queued.  When the queue is empty every feasible path has been run,
so an assertion that is unsatisfiable-when-negated on each of them holds for
every value of the symbolic inputs within the harness' bounds.
"""
import time
from fractions import Fraction

import z3

# --------------------------------------------------------------------------
# control-flow signals.  BaseException: the code under test must not catch them


class Signal(BaseException):
    """Base of engine signals."""


class Infeasible(Signal):
    """The path condition became unsatisfiable (an assumption failed)."""


class Unmodelled(Signal):
    """The code did something the engine has no symbolic model for."""


class Violation(Signal):
    """An assertion of the harness can fail on this path."""

    def __init__(self, label, model):
        super().__init__(label)
        self.label = label
        self.model = model


class Divergence(Signal):
    """Re-execution did not follow the recorded decisions (engine error)."""


class Inconclusive(Signal):
    """The solver answered unknown where an answer was needed."""


CTX = None  # the current path context


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


def unmodelled(what):
    raise Unmodelled(what)


class Ctx:
    """One path."""

    def __init__(self, prefix, timeout_ms=20000, rseed=1):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.alts = []
        self.solver = z3.Solver()
        self.timeout_ms = timeout_ms
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', rseed)
        self.model = None
        self.known = {}
        self.fresh_n = 0
        self.inputs = {}      # name -> (z3 var, kind, meta)
        self.input_order = []
        self.queries = 0
        self.solver_s = 0.0
        self.assert_queries = 0
        self.trivial = 0
        self.inconclusive = []
        self.functions = set()
        self.checks = []      # (label, actual, expected) recorded for engine validation
        self.asserted = []

    # -- solver plumbing ---------------------------------------------------
    def _check(self, *extra):
        self.queries += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        return r

    def _ensure_model(self):
        if self.model is None:
            self.solver.set('timeout', 3000)
            r = self._check()
            self.solver.set('timeout', self.timeout_ms)
            if r == z3.unknown:
                self.model = self._guess()
                if self.model is None:
                    r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self.model = self.solver.model()
            if self.model is None:
                raise Inconclusive('path condition: unknown')
        return self.model

    def _guess(self, *extra):
        """A model found by fixing the symbolic numbers (used when the solver gives up on the open problem)."""
        self.solver.set('timeout', 2000)
        try:
            for salt in range(8):
                fix = self._spread(salt)
                while fix:
                    if self._check(*extra, *fix) == z3.sat:
                        return self.solver.model()
                    fix = fix[:len(fix) // 2] if salt > 4 else None
        finally:
            self.solver.set('timeout', self.timeout_ms)
        return None

    def _spread(self, salt=0):
        prefs = []
        for i, name in enumerate(self.input_order):
            var, kind, meta = self.inputs[name]
            if kind in ('num', 'int') and meta.get('spread'):
                lo, hi = meta['lo'], meta['hi']
                span = hi - lo + 1
                h = (i * 2654435761 + 1013904223 + salt * 40503) % (2**32)
                h = (h ^ (h >> 13)) * 1274126177 % (2**32)
                prefs.append(var == lo + (h * 7919 + 104729 * (i + 3)) % span)
        return prefs

    def _mval(self, cond):
        return z3.is_true(self.model.eval(cond, model_completion=True))

    def add(self, cond):
        self.solver.add(cond)
        self.asserted.append(cond)

    # -- branching ---------------------------------------------------------
    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        if key in self.known:
            return self.known[key][0]
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            if not isinstance(val, bool):
                raise Divergence('expected a branch decision')
            self.pos += 1
            self.add(cond if val else z3.Not(cond))
            self.decisions.append(val)
            self.known[key] = (val, cond)
            self._prefix_end()
            return val
        self._ensure_model()
        val = self._mval(cond)
        r = self._check(z3.Not(cond) if val else cond)
        if r == z3.sat:
            self.alts.append(self.decisions + [not val])
        elif r == z3.unknown:
            if self._guess(z3.Not(cond) if val else cond) is None:
                self.inconclusive.append('branch feasibility: unknown')
            else:
                self.alts.append(self.decisions + [not val])
        self.pos += 1
        self.add(cond if val else z3.Not(cond))
        self.decisions.append(val)
        self.known[key] = (val, cond)
        return val

    def assume(self, cond, simplified=False):
        cond = cond if simplified else z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        self.add(cond)
        if self.pos < len(self.prefix):
            self.model = None
            return
        if self.model is not None and self._mval(cond):
            return
        self.model = None
        self._ensure_model()

    def concretise(self, expr):
        """Fork over every feasible value of an Int expression."""
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        n = 0
        while True:
            if self.pos < len(self.prefix):
                # replay: the prefix stores the value choices as ints
                v = self.prefix[self.pos]
                if isinstance(v, tuple):
                    v = v[1]
                    cond = expr == v
                    taken = True
                else:
                    raise Divergence('expected a value decision')
            else:
                self._ensure_model()
                v = self.model.eval(expr, model_completion=True).as_long()
                cond = expr == v
                taken = True
                # queue the rest lazily: enumerate all other values now
                self._queue_values(expr, v)
            replay = self.pos < len(self.prefix)
            self.pos += 1
            self.decisions.append(('v', v))
            self.add(cond)
            self.known[cond.get_id()] = (taken, cond)
            if replay:
                self._prefix_end()
            return v

    def _prefix_end(self):
        if self.pos == len(self.prefix):
            self.model = None
            try:
                self._ensure_model()
            except Infeasible:
                raise Divergence('a queued path is infeasible on re-execution')

    def _queue_values(self, expr, v0):
        self.solver.push()
        try:
            self.solver.add(expr != v0)
            n = 0
            while True:
                r = self._check()
                if r == z3.unsat:
                    break
                if r == z3.unknown:
                    self.inconclusive.append('value enumeration: unknown')
                    break
                v = self.solver.model().eval(expr, model_completion=True).as_long()
                self.alts.append(self.decisions + [('v', v)])
                self.solver.add(expr != v)
                n += 1
                if n > 5000:
                    raise Unmodelled('unbounded value enumeration')
        finally:
            self.solver.pop()

    def fresh(self, name, sort):
        self.fresh_n += 1
        nm = f'{name}!{self.fresh_n}'
        return z3.Int(nm) if sort == 'int' else z3.Real(nm)

    # -- assertions --------------------------------------------------------
    def prove(self, cond, label, clear=()):
        """Assert cond on this path: negation must be unsatisfiable. clear: terms that are zero when
        the assertion holds; a counterexample where one is well away from zero is preferred."""
        if self.pos < len(self.prefix):
            # this assertion was already discharged, under a weaker path
            # condition, by the run that queued this path
            return
        self.assert_queries += 1
        r = self._check(z3.Not(cond))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            # a second opinion on the bare assertion: valid without the path condition?
            s2 = z3.Solver()
            s2.set('timeout', 20000)
            self.queries += 1
            if s2.check(z3.Not(cond)) == z3.unsat:
                return
            self.inconclusive.append(f'assertion {label}: unknown')
            return
        for margin in (Fraction(1), Fraction(1, 1000), Fraction(1, 10**6)) if clear else ():
            big = z3.Or([z3.Or(d >= z3.RealVal(margin), d <= -z3.RealVal(margin)) for d in clear])
            m = self.final_model(z3.And(z3.Not(cond), big))
            if m is not None:
                raise Violation(label, m)
        self._check(z3.Not(cond))
        raise Violation(label, self.final_model(z3.Not(cond)) or self.solver.model())

    def final_model(self, extra=None):
        """A model of the path condition with spread-out input values."""
        if extra is not None:
            self.solver.push()
            try:
                self.solver.add(extra)
                return self.final_model()
            finally:
                self.solver.pop()
        prefs = self._spread()
        self.solver.set('timeout', 2000)
        try:
            if prefs and self._check(*prefs) == z3.sat:
                return self.solver.model()
            r = self._check()
            if r == z3.unsat:
                return None
            base = self.solver.model() if r == z3.sat else self._guess()
            if base is None or not prefs:
                return base
            self.solver.push()
            try:
                self._apply_prefs(prefs, [60])
                r = self._check()
                return self.solver.model() if r == z3.sat else base
            finally:
                self.solver.pop()
        finally:
            self.solver.set('timeout', self.timeout_ms)

    def _apply_prefs(self, prefs, budget):
        if not prefs or budget[0] <= 0:
            return
        budget[0] -= 1
        r = self._check(*prefs)
        if r == z3.sat:
            self.solver.add(*prefs)
            return
        if len(prefs) == 1:
            return
        m = len(prefs) // 2
        self._apply_prefs(prefs[:m], budget)
        self._apply_prefs(prefs[m:], budget)


# --------------------------------------------------------------------------
# scalars


def frac_of(x):
    """Decimal reading of a Python float (shortest repr), exact for ints."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(repr(float(x)))


def rv(x):
    f = frac_of(x) if not isinstance(x, Fraction) else x
    return z3.RealVal(f)


class SymBool:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return CTX.branch(self.z)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(self.z == zbool(o))
        if isinstance(o, (int, float)):
            return mkbool(z3.If(self.z, rv(1), rv(0)) == rv(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(z3.Not(zbool(r)))

    def __and__(self, o):
        return mkbool(z3.And(self.z, zbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, zbool(o)))
    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f'SymBool({self.z})'


def zbool(o):
    if isinstance(o, SymBool):
        return o.z
    return z3.BoolVal(bool(o))


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


NUM = (int, float)


def is_npnum(o):
    t = type(o)
    return t.__module__ == 'numpy' and hasattr(o, 'item') and getattr(o, 'shape', None) == ()


def zreal(o):
    """Real-sorted z3 term of a scalar (None when it is not a number)."""
    if isinstance(o, SymReal):
        return o.z
    if isinstance(o, SymInt):
        return z3.ToReal(o.z)
    if isinstance(o, SymBool):
        return z3.If(o.z, z3.RealVal(1), z3.RealVal(0))
    if isinstance(o, (bool, int)):
        return z3.RealVal(int(o))
    if isinstance(o, float):
        if o != o or o in (float('inf'), float('-inf')):
            unmodelled('non-finite float in symbolic arithmetic')
        return rv(o)
    if isinstance(o, Fraction):
        return z3.RealVal(o)
    if is_npnum(o):
        return zreal(o.item())
    return None


def zint(o):
    if isinstance(o, SymInt):
        return o.z
    if isinstance(o, SymBool):
        return z3.If(o.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(o, (bool, int)):
        return z3.IntVal(int(o))
    if is_npnum(o) and isinstance(o.item(), int):
        return z3.IntVal(o.item())
    return None


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SymInt(z)


_REALS = {}


def mkreal(z):
    k = z.get_id()
    if k in _REALS:
        return _REALS[k][1]
    r = _mkreal(z)
    if len(_REALS) > 100000:
        _REALS.clear()
    _REALS[k] = z, r     # z kept alive, so that its id stays its own
    return r


def _mkreal(z):
    z = z3.simplify(z)
    if z3.is_rational_value(z):
        f = z.as_fraction()
        v = float(f)
        if frac_of(v) == f:
            return v
    return SymReal(z)


def _nonfinite(o):
    return isinstance(o, float) and (o != o or o in (float('inf'), float('-inf')))


class SymNum:
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _arr(self, o):
        # let numpy arrays broadcast
        return type(o).__module__ == 'numpy' and hasattr(o, 'shape') and getattr(o, 'shape', ()) != ()

    def __eq__(self, o):
        if self._arr(o):
            return NotImplemented
        if _nonfinite(o):
            return False
        b = zreal(o)
        if b is None:
            return False if o is None or not hasattr(o, '__symeq__') else NotImplemented
        if isinstance(self, SymInt) and zint(o) is not None:
            return mkbool(self.z == zint(o))
        return mkbool(zreal(self) == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mkbool(z3.Not(zbool(r)))

    def _cmp(self, o, f):
        if self._arr(o):
            return NotImplemented
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            return f(0.0, o)
        if isinstance(self, SymInt) and zint(o) is not None:
            return mkbool(f(self.z, zint(o)))
        b = zreal(o)
        if b is None:
            return NotImplemented
        return mkbool(f(zreal(self), b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _bin(self, o, f, rev=False):
        if self._arr(o):
            return NotImplemented
        if isinstance(self, SymInt) and zint(o) is not None and not is_npnum(o):
            a, b = self.z, zint(o)
            return mkint(f(b, a) if rev else f(a, b))
        b = zreal(o)
        if b is None:
            return NotImplemented
        a = zreal(self)
        return mkreal(f(b, a) if rev else f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            if isinstance(self, SymInt):
                return o * self.__index__()
            return NotImplemented
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            if isinstance(self, SymInt):
                return o * self.__index__()
            return NotImplemented
        return self._bin(o, lambda a, b: a * b, True)

    def _div(self, o, rev):
        if self._arr(o):
            return NotImplemented
        b = zreal(o)
        if b is None:
            return NotImplemented
        a = zreal(self)
        if rev:
            a, b = b, a
        if CTX.branch(b == 0):
            raise ZeroDivisionError('float division by zero')
        return mkreal(a / b)

    def __truediv__(self, o):
        return self._div(o, False)

    def __rtruediv__(self, o):
        return self._div(o, True)

    def _idiv(self, o, rev, mod):
        if self._arr(o):
            return NotImplemented
        if isinstance(self, SymInt) and zint(o) is not None:
            a, b = self.z, zint(o)
            if rev:
                a, b = b, a
            if CTX.branch(b == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
            if CTX.branch(b > 0):
                return mkint(a % b if mod else a / b)
            # floor semantics for a negative divisor: floor(a/b) == floor(-a/-b)
            q = (-a) / (-b)
            return mkint(a - b * q if mod else q)
        b = zreal(o)
        if b is None:
            return NotImplemented
        a = zreal(self)
        if rev:
            a, b = b, a
        if CTX.branch(b == 0):
            raise ZeroDivisionError('float floor division by zero')
        q = z3.ToReal(z3.ToInt(a / b))
        return mkreal(a - b * q if mod else q)

    def __floordiv__(self, o):
        return self._idiv(o, False, False)

    def __rfloordiv__(self, o):
        return self._idiv(o, True, False)

    def __mod__(self, o):
        return self._idiv(o, False, True)

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._idiv(o, True, True)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return mkint(-self.z) if isinstance(self, SymInt) else mkreal(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        if CTX.branch(self.z < 0):
            return -self
        return self

    def __bool__(self):
        return CTX.branch(self.z != 0)

    def __pow__(self, o, mod=None):
        return sym_pow(self, o)

    def __rpow__(self, o):
        if isinstance(self, SymInt):
            return o ** self.__index__()
        unmodelled('symbolic exponent')

    def __float__(self):
        unmodelled('conversion of a symbolic number to a native float')

    def __complex__(self):
        unmodelled('complex of a symbolic number')

    def __str__(self):
        unmodelled('native str() of a symbolic number')

    def __format__(self, spec):
        unmodelled('native format() of a symbolic number')

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def __repr__(self):
        return f'{type(self).__name__}({self.z})'

    def sqrt(self):
        return sym_root(self, 2)

    def __round__(self, n=None):
        if isinstance(self, SymInt) and (n is None or n >= 0):
            return self
        k = 0 if n is None else int(n)
        sc = z3.RealVal(Fraction(10) ** k)
        i = CTX.fresh('round', 'int')
        CTX.add(z3.And(z3.ToReal(i) - self.z * sc <= rv(0.5), self.z * sc - z3.ToReal(i) <= rv(0.5)))
        CTX.model = None
        if n is None:
            return mkint(i)
        return mkreal(z3.ToReal(i) / sc)


def sym_pow(x, o):
    if isinstance(o, SymInt):
        o = o.__index__()
    if is_npnum(o):
        o = o.item()
    if isinstance(o, float) and o == int(o) and isinstance(x, SymReal):
        o = int(o)
    if isinstance(o, int) and not isinstance(o, bool):
        if o == 0:
            return 1 if isinstance(x, SymInt) else 1.0
        if o > 0:
            r = x
            for _ in range(o - 1):
                r = r * x
            return r
        return 1.0 / sym_pow(x, -o)
    if isinstance(o, float):
        for k in (2, 3):
            if abs(o - 1.0 / k) < 1e-15:
                return sym_root(x, k)
    unmodelled(f'power {o!r}')


def sym_root(x, k):
    v = zreal(x)
    if CTX.branch(v < 0):
        # a real parser would get nan / a complex number here
        unmodelled('root of a negative number')
    r = CTX.fresh('root', 'real')
    p = r
    for _ in range(k - 1):
        p = p * r
    CTX.add(z3.And(r >= 0, p == v))
    CTX.model = None
    return mkreal(r)


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return CTX.concretise(self.z)

    def __int__(self):
        return CTX.concretise(self.z)

    def __hash__(self):
        return hash(CTX.concretise(self.z))

    def bit_length(self):
        return self.__index__().bit_length()

    def is_integer(self):
        return True

    def __and__(self, o):
        return self.__index__() & int(o)
    __rand__ = __and__

    def __or__(self, o):
        return self.__index__() | int(o)

    def __lshift__(self, o):
        return self.__index__() << int(o)

    def __rshift__(self, o):
        return self.__index__() >> int(o)


class SymReal(SymNum):
    __slots__ = ()

    def __int__(self):
        unmodelled('native int() of a symbolic real')

    def __hash__(self):
        unmodelled('hash of a symbolic real')

    def is_integer(self):
        return mkbool(z3.IsInt(self.z))


def trunc(x):
    """int(x) of a symbolic real."""
    z = x.z
    if CTX.branch(z >= 0):
        return mkint(z3.ToInt(z))
    return mkint(-z3.ToInt(-z))


def is_sym(o):
    return isinstance(o, (SymNum, SymBool))
