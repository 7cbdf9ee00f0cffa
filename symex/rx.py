"""Regular expressions over symbolic strings: a backtracking matcher on the parsed pattern.

Plain strings go to the real ``re``; SymStr inputs are spelled out character by
character and every test of a symbolic character forks through the solver.
"""
import re
import re._constants as C
import re._parser as P

from .core import Unmodelled, unmodelled
from .strs import Ch, Num, Pad, SymStr, e_in, mk, sjoin, els_of

_CAT = {
    C.CATEGORY_DIGIT: (str.isdigit, False), C.CATEGORY_NOT_DIGIT: (str.isdigit, True),
    C.CATEGORY_SPACE: (str.isspace, False), C.CATEGORY_NOT_SPACE: (str.isspace, True),
    C.CATEGORY_WORD: (lambda c: c.isalnum() or c == '_', False),
    C.CATEGORY_NOT_WORD: (lambda c: c.isalnum() or c == '_', True),
}


def _in_set(items, c, flags):
    neg = False
    hit = False
    cs = {c}
    if flags & re.I:
        cs = {c, c.lower(), c.upper()}
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            hit = hit or any(ord(x) == av for x in cs)
        elif op is C.RANGE:
            hit = hit or any(av[0] <= ord(x) <= av[1] for x in cs)
        elif op is C.CATEGORY:
            f, n = _CAT[av]
            hit = hit or (f(c) != n)
        else:
            unmodelled(f'regex class {op}')
    return hit != neg


class NeedFix(Exception):
    """The match looks inside the text of a number: spell the numbers and retry."""


def _test(e, pred, multi=False):
    if type(e) is str:
        return pred(e)
    if type(e) in (Num, Pad):
        alph = e.alphabet if type(e) is Num else {e.fill}
        hits = sum(1 for c in alph if pred(c))
        if hits == 0:
            return False
        if hits == len(alph) and multi:
            return True
        raise NeedFix()
    outs = e.outs()
    yes = {o for o in outs if pred(o)}
    return e.test(yes)


class _M:
    def __init__(self, els, flags):
        self.els = els
        self.flags = flags
        self.steps = 0

    def refuses(self, nodes, k, e):
        """Is the next node one character that no character inside e can be?"""
        if k >= len(nodes):
            return False
        op, av = nodes[k]
        if op not in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            return False
        pred = self.pred(op, av)
        return not any(pred(c) for c in (e.alphabet if type(e) is Num else {e.fill}))

    def run(self, nodes, k, i, groups, cont):
        """Match nodes[k:] at i; cont(i, groups) continues. Returns a result or None."""
        self.steps += 1
        if self.steps > 200000:
            unmodelled('regex too expensive')
        if k == len(nodes):
            return cont(i, groups)
        op, av = nodes[k]
        els, n = self.els, len(self.els)
        fl = self.flags

        def nxt(j, g):
            return self.run(nodes, k + 1, j, g, cont)

        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= n:
                return None
            if not _test(els[i], self.pred(op, av)):
                return None
            return nxt(i + 1, groups)
        if op is C.AT:
            return nxt(i, groups) if self.at(av, i) else None
        if op is C.SUBPATTERN:
            gid, addf, delf, sub = av
            if addf or delf:
                unmodelled('inline regex flags')

            def done(j, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                return nxt(j, g)
            return self.run(list(sub), 0, i, groups, done)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), 0, i, groups, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, getattr(C, 'POSSESSIVE_REPEAT', None)):
            lo, hi, sub = av
            sub = list(sub)
            hi = n + 1 if hi is C.MAXREPEAT else hi
            if op is getattr(C, 'POSSESSIVE_REPEAT', None):
                unmodelled('possessive repeat')
            if len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                pred = self.pred(*sub[0])
                if op is C.MAX_REPEAT:
                    cnt = 0
                    multi = hi > n
                    while cnt < hi and i + cnt < n and _test(els[i + cnt], pred, multi):
                        cnt += 1
                    while cnt >= lo:
                        r = nxt(i + cnt, groups)
                        if r is not None:
                            return r
                        if cnt and type(els[i + cnt - 1]) in (Num, Pad) and not self.refuses(nodes, k + 1, els[i + cnt - 1]):
                            raise NeedFix()
                        cnt -= 1
                    return None
                cnt = 0
                while cnt < lo:
                    if i + cnt >= n or not _test(els[i + cnt], pred):
                        return None
                    cnt += 1
                while True:
                    r = nxt(i + cnt, groups)
                    if r is not None:
                        return r
                    if cnt >= hi or i + cnt >= n or not _test(els[i + cnt], pred):
                        return None
                    cnt += 1
            return self.rep(sub, lo, hi, op is C.MAX_REPEAT, 0, i, groups, nxt)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                w = P.SubPattern(P.State(), list(sub)).getwidth() if not hasattr(sub, 'getwidth') else sub.getwidth()
                st = i - w[0]
                ok = None
                if st >= 0:
                    ok = self.run(list(sub), 0, st, groups, lambda j, g: (j, g) if j == i else None)
            else:
                ok = self.run(list(sub), 0, i, groups, lambda j, g: (j, g))
            if (ok is not None) == (op is C.ASSERT):
                return nxt(i, ok[1] if ok is not None and op is C.ASSERT else groups)
            return None
        if op is C.GROUPREF:
            if av not in groups:
                return None
            a, b = groups[av]
            seg = mk(els[a:b])
            if i + (b - a) > n or not bool(mk(els[i:i + b - a]) == seg):
                return None
            return nxt(i + (b - a), groups)
        unmodelled(f'regex operator {op}')

    def rep(self, sub, lo, hi, greedy, cnt, i, groups, nxt):
        def more(j, g):
            if j == i and cnt >= lo:
                return None
            return self.rep(sub, lo, hi, greedy, cnt + 1, j, g, nxt)
        if cnt < lo:
            return self.run(sub, 0, i, groups, more)
        if greedy:
            if cnt < hi:
                r = self.run(sub, 0, i, groups, more)
                if r is not None:
                    return r
            return nxt(i, groups)
        r = nxt(i, groups)
        if r is not None:
            return r
        return self.run(sub, 0, i, groups, more) if cnt < hi else None

    def pred(self, op, av):
        fl = self.flags
        if op is C.LITERAL:
            if fl & re.I:
                ch = chr(av)
                return lambda c: c.lower() == ch.lower()
            return lambda c: ord(c) == av
        if op is C.NOT_LITERAL:
            if fl & re.I:
                ch = chr(av)
                return lambda c: c.lower() != ch.lower()
            return lambda c: ord(c) != av
        if op is C.ANY:
            return (lambda c: True) if fl & re.S else (lambda c: c != '\n')
        return lambda c: _in_set(av, c, fl)

    def at(self, av, i):
        els, n = self.els, len(self.els)
        if av is C.AT_BEGINNING:
            return i == 0 or (bool(self.flags & re.M) and type(els[i - 1]) not in (Num, Pad) and e_in(els[i - 1], {'\n'}))
        if av is C.AT_BEGINNING_STRING:
            return i == 0
        if av is C.AT_END_STRING:
            return i == n
        if av is C.AT_END:
            if i == n:
                return True
            if type(els[i]) in (Num, Pad):
                return False
            if self.flags & re.M:
                return e_in(els[i], {'\n'})
            return i == n - 1 and e_in(els[i], {'\n'})
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = lambda c: c.isalnum() or c == '_'
            a = i > 0 and _test(els[i - 1], w)
            b = i < n and _test(els[i], w)
            return (a != b) == (av is C.AT_BOUNDARY)
        unmodelled(f'regex anchor {av}')


class SymMatch:
    def __init__(self, pat, s, els, i, j, groups):
        self.re, self.string, self.els = pat, s, els
        self.g = dict(groups)
        self.g[0] = (i, j)
        self.ngroups = pat.p.groups
        self.names = dict(pat.p.groupindex)

    def _one(self, k, default=None):
        if isinstance(k, str):
            k = self.names[k]
        if k > self.ngroups or k < 0:
            raise IndexError('no such group')
        if k not in self.g:
            return default
        a, b = self.g[k]
        return mk(self.els[a:b])

    def group(self, *k):
        if not k:
            return self._one(0)
        if len(k) == 1:
            return self._one(k[0])
        return tuple(self._one(x) for x in k)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.ngroups + 1))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self.names.items()}

    def span(self, k=0):
        a, b = self.g.get(self.names.get(k, k), (-1, -1))
        if any(type(e) in (Num, Pad) for e in self.els[:b]):
            unmodelled('character position behind a number')
        return a, b

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    @property
    def lastindex(self):
        ks = [k for k in self.g if k]
        return max(ks) if ks else None

    def __bool__(self):
        return True


def _quick_absent(s, tree):
    """A concrete literal run of the pattern that cannot occur: no match possible."""
    return False


class SymPattern:
    def __init__(self, p):
        self.p = p
        self.pattern = p.pattern
        self.flags = p.flags
        self.groups = p.groups
        self.groupindex = p.groupindex
        self.tree = list(P.parse(p.pattern, p.flags & ~re.U if False else p.flags & ~re.DEBUG))

    def _lit_prefix(self):
        """Mandatory literal run anywhere at the top level (for cheap rejection)."""
        best, cur = '', ''
        for op, av in self.tree:
            if op is C.LITERAL and not self.flags & re.I:
                cur += chr(av)
            else:
                if len(cur) > len(best):
                    best = cur
                cur = ''
        return cur if len(cur) > len(best) else best

    def _reject(self, s):
        lit = self._lit_prefix().strip()
        if lit and isinstance(s, SymStr):
            # only concrete / disjoint alphabets decide here: no fork
            alph = set()
            for e in s.els:
                if type(e) is str:
                    alph.add(e)
                elif type(e) is Ch:
                    alph |= e.outs()
                elif hasattr(e, 'alphabet'):
                    alph |= e.alphabet
                else:
                    alph.add(e.fill)
            if any(c not in alph for c in lit):
                return True
            # concrete segments between numbers
            if s.has_num() and not any(type(e) is Ch for e in s.els):
                sep = {'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', '.', '-', '+', 'e', 'E', ' ', 'd', 'D'}
                if not (set(lit) & sep):
                    txt = ''.join(e if type(e) is str else '\0' for e in s.els)
                    if lit not in txt:
                        return True
        return False

    def _at(self, els, i, full=False, start=None):
        m = _M(els, self.flags)
        fin = (lambda j, g: (j, g) if j == len(els) else None) if full else (lambda j, g: (j, g))
        return m.run(self.tree, 0, i, {}, fin)

    def _try(self, s, f):
        """Run f on the elements; spell the numbers when the match depends on their digits."""
        try:
            return f(s.free())
        except NeedFix:
            return f(s.fixed())

    def _first(self, s, pos, full, search):
        if self._reject(s):
            return None

        def f(els):
            for i in range(pos, (len(els) if search else pos) + 1):
                r = self._at(els, i, full)
                if r is not None:
                    return SymMatch(self, s, els, i, r[0], r[1])
            return None
        if pos:
            return f(s.fixed())
        return self._try(s, f)

    def match(self, s, pos=0):
        if not isinstance(s, SymStr):
            return self.p.match(s, pos)
        return self._first(s, pos, False, False)

    def fullmatch(self, s, pos=0):
        if not isinstance(s, SymStr):
            return self.p.fullmatch(s, pos)
        return self._first(s, pos, True, False)

    def search(self, s, pos=0):
        if not isinstance(s, SymStr):
            return self.p.search(s, pos)
        return self._first(s, pos, False, True)

    def _all(self, s):
        if self._reject(s):
            return []

        def f(els):
            out, i = [], 0
            while i <= len(els):
                r = self._at(els, i)
                if r is None:
                    i += 1
                    continue
                j, g = r
                out.append(SymMatch(self, s, els, i, j, g))
                i = j if j > i else i + 1
            return out
        return self._try(s, f)

    def finditer(self, s, pos=0):
        if not isinstance(s, SymStr):
            return self.p.finditer(s, pos)
        if pos:
            unmodelled('finditer with a position')
        return iter(self._all(s))

    def findall(self, s, pos=0):
        if not isinstance(s, SymStr):
            return self.p.findall(s, pos)
        out = []
        for m in self.finditer(s, pos):
            if self.groups == 0:
                out.append(m.group(0))
            elif self.groups == 1:
                out.append(m._one(1, ''))
            else:
                out.append(m.groups(''))
        return out

    def split(self, s, maxsplit=0):
        if not isinstance(s, SymStr):
            return self.p.split(s, maxsplit)
        out, pos = [], 0
        n = 0
        els = None
        for m in self.finditer(s):
            els = m.els
            a, b = m.g[0]
            if maxsplit and n >= maxsplit:
                break
            out.append(mk(els[pos:a]))
            out += list(m.groups())
            pos = b
            n += 1
        out.append(mk((els if els is not None else s.els)[pos:]))
        return out

    def sub(self, repl, s, count=0):
        if not isinstance(s, SymStr) and not isinstance(repl, SymStr):
            return self.p.sub(repl, s, count)
        s = s if isinstance(s, SymStr) else SymStr(list(s))
        if isinstance(repl, str) and '\\' in repl:
            unmodelled('regex template with references')
        out, pos, n, els = [], 0, 0, s.els
        for m in self.finditer(s):
            els = m.els
            if count and n >= count:
                break
            a, b = m.g[0]
            out.append(mk(els[pos:a]))
            out.append(repl(m) if callable(repl) else repl)
            pos = b
            n += 1
        out.append(mk(els[pos:]))
        return sjoin('', out)


class RE:
    """Stand-in for the re module."""

    def __getattr__(self, n):
        return getattr(re, n)

    def compile(self, p, flags=0):
        if isinstance(p, SymPattern):
            return p
        if isinstance(p, re.Pattern):
            return SymPattern(p)
        if isinstance(p, SymStr):
            p = p.conc()
        return SymPattern(re.compile(p, flags))

    def match(self, p, s, flags=0):
        return self.compile(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self.compile(p, flags).fullmatch(s)

    def search(self, p, s, flags=0):
        return self.compile(p, flags).search(s)

    def findall(self, p, s, flags=0):
        return self.compile(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self.compile(p, flags).finditer(s)

    def split(self, p, s, maxsplit=0, flags=0):
        return self.compile(p, flags).split(s, maxsplit)

    def sub(self, p, repl, s, count=0, flags=0):
        return self.compile(p, flags).sub(repl, s, count)

    def escape(self, s):
        return re.escape(s.conc() if isinstance(s, SymStr) else s)


RX = RE()
