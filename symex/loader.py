"""Load /repo's parsevasp for symbolic execution.

The sources are read from disk on every run, given a semantics-preserving AST
pass (operations that CPython resolves inside C on native strings become calls
the engine can intercept) and executed with symbolic-aware builtins and
stand-ins for numpy / re / io / os / lxml.
"""
import ast
import builtins
import collections
import importlib
import io as _io
import logging as _logging
import math as _math
import os as _os
import pathlib as _pathlib
import sys as _sys
import types

import z3

from . import arr, core, rx, xmlshim
from .core import Signal, SymBool, SymInt, SymNum, SymReal, mkreal, unmodelled, zreal
from .strs import (Num, Pad, SymStr, els_of, fmt_value, has_sym, mk, native_method, percent, sjoin, to_float, to_int, to_str)

REPO = _os.environ.get('VERIF_REPO', '/repo')
PKG = 'parsevasp'

# ------------------------------------------------------------------- AST pass


class Rewrite(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    def _call(self, name, *args, at=None):
        return ast.copy_location(ast.Call(ast.Name(name, ast.Load()), list(args), []), at)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and not (f.attr.startswith('__') and not f.attr.endswith('__')):
            node.func = self._call('__sx_m__', f.value, ast.Constant(f.attr), at=f)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([v.value, ast.Constant(chr(v.conversion) if v.conversion > 0 else None), spec], ast.Load()))
            else:
                parts.append(v)
        return self._call('__sx_f__', ast.List(parts, ast.Load()), at=node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self._call('__sx_mod__', node.left, node.right, at=node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            if isinstance(op, (ast.In, ast.NotIn)):
                return self._call('__sx_in__' if isinstance(op, ast.In) else '__sx_nin__', node.left, node.comparators[0], at=node)
            if isinstance(op, (ast.Is, ast.IsNot)):
                return self._call('__sx_is__' if isinstance(op, ast.Is) else '__sx_nis__', node.left, node.comparators[0], at=node)
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            node.body.insert(0, ast.copy_location(ast.Expr(self._call('__sx_reraise__', at=node)), node))
        return node

    def _func(self, node):
        self.stack.append(node.name)
        qual = '.'.join(self.stack)
        self.generic_visit(node)
        self.stack.pop()
        node.body.insert(0, ast.Expr(self._call('__sx_enter__', ast.Constant(f'{self.mod}.{qual}'), at=node.body[0])))
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node


# ------------------------------------------------------------------- builtins


class _TypeMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls._native) or isinstance(o, cls._sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._native) or c is cls or issubclass(c, cls._sym)

    def __eq__(cls, o):
        return cls is o or o is cls._native

    def __hash__(cls):
        return hash(cls._native)

    def __getattr__(cls, n):
        v = getattr(cls._native, n)
        if cls._native is str and callable(v):
            return lambda s, *a, **k: get_method(s, n)(*a, **k)
        return v

    def __repr__(cls):
        return repr(cls._native)

    def __or__(cls, o):
        return (cls, o)


class Str(metaclass=_TypeMeta):
    _native, _sym = str, SymStr

    def __new__(cls, o='', *a):
        return str(o, *a) if a else to_str(o)


class Int(metaclass=_TypeMeta):
    _native, _sym = int, SymInt

    def __new__(cls, o=0, *a):
        if isinstance(o, SymStr):
            if a and a[0] != 10:
                return int(o.conc(), *a)
            return to_int(o)
        if isinstance(o, SymInt):
            return o
        if isinstance(o, SymReal):
            return core.trunc(o)
        if isinstance(o, SymBool):
            return int(bool(o))
        if isinstance(o, arr.SymArray) and o.size == 1:
            return Int(o.ravel().tolist()[0])
        return int(o, *a)


class Float(metaclass=_TypeMeta):
    _native, _sym = float, SymReal

    def __new__(cls, o=0.0):
        if isinstance(o, SymStr):
            return to_float(o)
        if isinstance(o, SymReal):
            return o
        if isinstance(o, SymInt):
            return mkreal(z3.ToReal(o.z))
        if isinstance(o, SymBool):
            return float(bool(o))
        if isinstance(o, arr.SymArray) and o.size == 1:
            return Float(o.ravel().tolist()[0])
        return float(o)


class Bool(metaclass=_TypeMeta):
    _native, _sym = bool, SymBool

    def __new__(cls, o=False):
        return bool(o)


for _c, _n in ((Str, 'str'), (Int, 'int'), (Float, 'float'), (Bool, 'bool')):
    _c.__name__ = _c.__qualname__ = _n
    arr.BT[_c] = _c._native

_UNSHIM = {Str: (str, SymStr), Int: (int, SymInt), Float: (float, SymReal), Bool: (bool, SymBool)}


def sx_isinstance(o, t):
    if isinstance(t, tuple):
        return any(sx_isinstance(o, x) for x in t)
    if isinstance(t, types.UnionType):
        return any(sx_isinstance(o, x) for x in t.__args__)
    if t is str:
        return isinstance(o, (str, SymStr))
    if t is int:
        return isinstance(o, (int, SymInt, SymBool))
    if t is Int:
        return isinstance(o, (int, SymInt, SymBool))
    if isinstance(o, SymStr) and t in (collections.abc.Sequence, collections.abc.Iterable, collections.abc.Sized,
                                       collections.abc.Hashable, collections.abc.Container):
        return True
    if isinstance(o, SymNum):
        import numbers
        if t in (numbers.Number, numbers.Real, numbers.Complex):
            return True
        if t in (numbers.Integral, numbers.Rational):
            return isinstance(o, SymInt)
        if t is float:
            return isinstance(o, SymReal)
    return isinstance(o, t)


class _TypeShim(type):
    def __instancecheck__(cls, o):
        return isinstance(o, type)

    def __eq__(cls, o):
        return o is cls or o is type

    def __hash__(cls):
        return hash(type)


def sx_type(*a, **k):
    if len(a) == 1:
        t = type(a[0])
        return {str: Str, SymStr: Str, int: Int, SymInt: Int, float: Float, SymReal: Float, bool: Bool, SymBool: Bool}.get(t, t)
    return type(*a, **k)


def sx_sorted(it, **k):
    return sorted(it, **k)


def get_method(o, name):
    if type(o) is str:
        if name in ('join', 'format') or True:
            return lambda *a, **k: native_method(o, name, a, k)
    if type(o) is list and name in ('index', 'count', 'remove') :
        return getattr(o, name)
    return getattr(o, name)


def sx_f(parts):
    if not any(isinstance(p, tuple) for p in parts):
        return ''.join(parts)
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            out += els_of(fmt_value(v, spec, conv))
        else:
            out += list(p)
    return mk(out)


def sx_mod(a, b):
    if isinstance(a, SymStr) or (isinstance(a, str) and has_sym(b)):
        return percent(a, b)
    return a % b


def sx_in(a, b):
    if isinstance(b, str):
        if isinstance(a, SymStr):
            return SymStr(list(b)).find(a) >= 0
        return a in b
    if isinstance(b, SymStr):
        if not isinstance(a, (str, SymStr)):
            raise TypeError("'in <string>' requires string as left operand")
        return a in b
    return a in b


def sx_is(a, b):
    if isinstance(b, bool) and isinstance(a, SymBool):
        return bool(a) is b
    if isinstance(a, type) and isinstance(b, type):
        return a is b or getattr(a, '_native', a) is getattr(b, '_native', b)
    return a is b


def sx_reraise():
    e = _sys.exc_info()[1]
    if isinstance(e, Signal):
        raise e


def sx_enter(q):
    if core.CTX is not None:
        core.CTX.functions.add(q)


# -------------------------------------------------------------- virtual files


class TellPos:
    """An opaque stream position: so many elements from the start, minus chars."""

    def __init__(self, n, back=0):
        self.n, self.back = n, back

    def __sub__(self, k):
        return TellPos(self.n, self.back + int(k))

    def __add__(self, k):
        return TellPos(self.n, self.back - int(k))

    def __index__(self):
        if self.back == 0 and self.n == 0:
            return 0
        unmodelled('arithmetic on a stream position')


def sx_print(*a, sep=' ', end='\n', file=None, flush=False):
    """print() to a handler writes there; to the terminal it leaves no trace the properties speak of."""
    if file is None or not hasattr(file, 'write') or file in (_sys.stdout, _sys.stderr):
        return
    sep, end = ' ' if sep is None else sep, '\n' if end is None else end
    for i, x in enumerate(a):
        if i:
            file.write(sep)
        file.write(x if isinstance(x, (str, SymStr)) else to_str(x))
    file.write(end)


class VFile:
    """In-memory text file over (possibly) symbolic text."""

    def __init__(self, text='', on_close=None, readable=True, writable=True):
        self._els = list(els_of(text))
        self._pos = 0
        self.closed = False
        self._on_close = on_close
        self._r, self._w = readable, writable
        self.name = '<virtual>'

    def _chk(self, what):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if not (self._r if what == 'r' else self._w):
            raise _io.UnsupportedOperation('not readable' if what == 'r' else 'not writable')

    def read(self, n=-1):
        self._chk('r')
        if n is None or n < 0:
            out = mk(self._els[self._pos:])
            self._pos = len(self._els)
            return out
        els = SymStr(self._els[self._pos:]).fixed()
        self._els = self._els[:self._pos] + els
        out = mk(els[:n])
        self._pos += len(els[:n])
        return out

    def readline(self, *a):
        self._chk('r')
        rest = self._els[self._pos:]
        out = []
        for e in rest:
            out.append(e)
            if type(e) is str:
                if e == '\n':
                    break
            elif type(e) not in (Num, Pad) and e.test({'\n'}):
                break
        self._pos += len(out)
        return mk(out)

    def readlines(self, *a):
        out = []
        while True:
            line = self.readline()
            if not isinstance(line, SymStr) and line == '':
                return out
            out.append(line)

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not isinstance(line, SymStr) and line == '':
            raise StopIteration
        return line

    def write(self, s):
        self._chk('w')
        if not isinstance(s, (str, SymStr)):
            raise TypeError(f'string argument expected, got {type(s).__name__!r}')
        new = els_of(s)
        self._els[self._pos:self._pos + len(new)] = new
        self._pos += len(new)
        return len(new)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def tell(self):
        if all(type(e) is str for e in self._els[:self._pos]):
            return self._pos
        return TellPos(self._pos)

    def _resolve(self, p):
        if isinstance(p, TellPos):
            n = p.n
            back = p.back
            while back > 0 and n > 0:
                if type(self._els[n - 1]) in (Num, Pad):
                    unmodelled('seeking into a number')
                n -= 1
                back -= 1
            return n
        p = p.__index__()
        if p and any(type(e) in (Num, Pad) for e in self._els[:p]):
            unmodelled('absolute seek over numbers')
        return p

    def seek(self, p, whence=0):
        if whence == 2:
            self._pos = len(self._els)
        elif whence == 0:
            self._pos = self._resolve(p)
        return self.tell()

    def truncate(self, p=None):
        n = self._pos if p is None else self._resolve(p)
        del self._els[n:]
        return n

    def getvalue(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return mk(list(self._els))

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            if self._on_close:
                self._on_close(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True


VROOT = '/virt/'
VDIR = VROOT + 'directory'
VFS = {}     # path -> elements


def is_virtual(p):
    if isinstance(p, _pathlib.PurePath):
        p = str(p)
    return isinstance(p, str) and p.startswith(VROOT)


def _vf(f):
    """A function of a path, with the path as text."""
    return lambda p, *a, **k: f(str(p) if isinstance(p, _pathlib.PurePath) else p.conc() if isinstance(p, SymStr) else p, *a, **k)


def sx_open(path, mode='r', buffering=-1, encoding=None, errors=None, newline=None, **k):
    if isinstance(path, SymStr):
        path = path.conc()
    p = _os.fspath(path) if not isinstance(path, int) else path
    if is_virtual(p):
        if p == VDIR:
            raise IsADirectoryError(21, 'Is a directory', p)
        if 'b' in mode:
            if p in xmlshim.VFSB and 'r' in mode and '+' not in mode:
                return xmlshim.Chunked(xmlshim.VFSB[p], xmlshim.CUTS.get(p, ()))
            if 'r' in mode and p not in VFS:
                raise FileNotFoundError(2, 'No such file or directory', p)
            unmodelled('binary open of a virtual file')
        if newline not in (None, '', '\n'):
            unmodelled('newline handling of a file')
        enc, errors = codec(encoding), errors or 'strict'
        if p in xmlshim.VFSB:
            unmodelled('text access to a virtual XML file')
        if 'r' in mode and '+' not in mode:
            if p not in VFS:
                raise FileNotFoundError(2, 'No such file or directory', p)
            els = recoded(VFS[p], 'utf-8', enc, errors)
            if newline == '' and any('\r' in e if type(e) is str else type(e) not in (Num, Pad) and '\r' in e.outs()
                                     for i, e in enumerate(els) if els[i + 1:i + 2] != ['\n']):
                unmodelled('newline handling of a file')
            f = VFile(universal(els) if newline is None else mk(els), writable=False)
            f.name = p
            return f
        if 'w' in mode or 'x' in mode or 'a' in mode:
            if p.startswith(VROOT + 'nodir/'):
                raise FileNotFoundError(2, 'No such file or directory', p)

            def done(f):
                VFS[p] = recoded(list(f._els), enc, 'utf-8', errors)
            f = VFile(mk(VFS.get(p, [])) if 'a' in mode else '', on_close=done, readable='+' in mode)
            f._pos = len(f._els)
            VFS[p] = []
            f.name = p
            return f
        unmodelled(f'open mode {mode}')
    if 'r' in mode and '+' not in mode:
        return open(path, mode, buffering, encoding, errors, newline, **k)
    unmodelled(f'write access to {p!r}')


def universal(els):
    out, i = [], 0
    while i < len(els):
        e = els[i]
        if type(e) is str and e == '\r':
            out.append('\n')
            if i + 1 < len(els) and els[i + 1] == '\n':
                i += 1
        elif type(e) not in (str, Num, Pad) and '\r' in e.outs() and e.test({'\r'}):
            out.append('\n')
            if i + 1 < len(els) and type(els[i + 1]) not in (Num, Pad) and (els[i + 1] == '\n' if type(els[i + 1]) is str else els[i + 1].test({'\n'})):
                i += 1
        else:
            out.append(e)
        i += 1
    return mk(out)


def recoded(els, a, b, errors='strict'):
    """Elements written with one encoding and read with another."""
    if a == b:
        return els
    out, run = [], []

    def flush():
        t = ''.join(run)
        out.extend(t if t.isascii() else t.encode(a, errors).decode(b, errors))
        run.clear()
    for e in els:
        if type(e) is str:
            run.append(e)
        else:
            flush()
            out.append(e)
    flush()
    return out


def codec(name):
    import codecs
    c = codecs.lookup(name).name if name else 'utf-8'
    if c in ('utf-16', 'utf-32', 'utf-7', 'utf-8-sig'):
        unmodelled(f'encoding {c}')
    return c


class Fallback:
    def __init__(self, mod, **over):
        self.__dict__['_mod'] = mod
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self._mod, n)


class _Logger:
    handlers = [None]
    level = 0
    name = 'null'

    def setLevel(self, *a):
        pass

    def __getattr__(self, n):
        if n in ('isEnabledFor', 'hasHandlers'):
            return lambda *a: False
        if n == 'getEffectiveLevel':
            return lambda: 0
        return lambda *a, **k: None


NULLLOG = _Logger()


def _stringio(initial='', newline='\n'):
    return VFile(initial if initial is not None else '')


class _StringIOMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (VFile, _io.StringIO))


class StringIO(metaclass=_StringIOMeta):
    def __new__(cls, initial='', newline='\n'):
        if newline is None and initial:
            return VFile(universal(list(els_of(initial))))
        if newline not in (None, '\n'):
            unmodelled('newline handling of StringIO')
        return VFile(initial if initial is not None else '')


def _vstat(p, *a, **k):
    if isinstance(p, _pathlib.PurePath):
        p = str(p)
    if isinstance(p, VFile):
        raise TypeError('stat: path should be string, bytes, os.PathLike or integer, not VFile')
    if is_virtual(p):
        if p == VDIR:
            return types.SimpleNamespace(st_size=4096, st_mode=0o040755)
        if p in xmlshim.VFSB:
            return types.SimpleNamespace(st_size=len(xmlshim.VFSB[p]), st_mode=0o100644)
        if p not in VFS:
            raise FileNotFoundError(2, 'No such file or directory', p)
        return types.SimpleNamespace(st_size=len(VFS[p]), st_mode=0o100644)
    return _os.stat(p, *a, **k)


def _vmove(src, dst, *a, **k):
    src, dst = str(src), str(dst)
    if not is_virtual(src) or not is_virtual(dst) or src in xmlshim.VFSB:
        unmodelled(f'renaming of {src!r}')
    if src not in VFS:
        raise FileNotFoundError(2, 'No such file or directory', src)
    if dst == VDIR:
        raise IsADirectoryError(21, 'Is a directory', dst)
    if dst.startswith(VROOT + 'nodir/'):
        raise FileNotFoundError(2, 'No such file or directory', dst)
    VFS[dst] = VFS.pop(src)


def _vremove(p, *a, **k):
    if not is_virtual(p) or p in xmlshim.VFSB:
        unmodelled(f'removal of {p!r}')
    if p == VDIR:
        raise IsADirectoryError(21, 'Is a directory', p)
    if p not in VFS:
        raise FileNotFoundError(2, 'No such file or directory', p)
    del VFS[p]


def _vaccess(p, mode, *a, **k):
    if not is_virtual(p):
        return _os.access(p, mode)
    return p == VDIR or p in VFS or p in xmlshim.VFSB


_ospath = Fallback(_os.path,
                   isfile=_vf(lambda p: (p in VFS or p in xmlshim.VFSB) if is_virtual(p) else _os.path.isfile(p)),
                   exists=_vf(lambda p: (p in VFS or p in xmlshim.VFSB or p == VDIR) if is_virtual(p) else _os.path.exists(p)),
                   lexists=_vf(lambda p: (p in VFS or p in xmlshim.VFSB or p == VDIR) if is_virtual(p) else _os.path.lexists(p)),
                   isdir=_vf(lambda p: p == VDIR if is_virtual(p) else _os.path.isdir(p)),
                   getsize=lambda p: _vstat(p).st_size)


class SPath(type(_pathlib.Path())):
    """pathlib.Path over the virtual files."""

    def open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
        return sx_open(str(self), mode, buffering, encoding, errors, newline)

    def read_text(self, encoding=None, errors=None, newline=None):
        with self.open('r', -1, encoding, errors, newline) as f:
            return f.read()

    def write_text(self, data, encoding=None, errors=None, newline=None):
        with self.open('w', -1, encoding, errors, newline) as f:
            return f.write(data)

    def read_bytes(self):
        with self.open('rb') as f:
            return f.read()

    def stat(self, **k):
        return _vstat(self) if is_virtual(self) else super().stat(**k)

    def exists(self, **k):
        return _ospath.exists(self)

    def is_file(self, **k):
        return _ospath.isfile(self)

    def is_dir(self, **k):
        return _ospath.isdir(self)

    def resolve(self, *a, **k):
        return self if is_virtual(self) else super().resolve(*a, **k)

    def unlink(self, missing_ok=False):
        if missing_ok and not self.exists():
            return
        _vremove(str(self))

    def rename(self, target):
        _vmove(self, target)
        return SPath(target)

    replace = rename


def _path(*a):
    return SPath(*[x.conc() if isinstance(x, SymStr) else x for x in a])


class _PathMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _pathlib.PurePath)

    def __getattr__(cls, n):
        return getattr(SPath, n)


class PathShim(metaclass=_PathMeta):
    def __new__(cls, *a):
        return _path(*a)


PATHLIB = Fallback(_pathlib, Path=PathShim, PosixPath=PathShim)


def _m1(name, sym):
    nat = getattr(_math, name)

    def f(x, *a):
        if isinstance(x, SymNum) or any(isinstance(y, SymNum) for y in a):
            return sym(x, *a)
        return nat(x, *a)
    return f


def _pow(x, y):
    return core.sym_pow(x, y)


def _isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not isinstance(a, SymNum) and not isinstance(b, SymNum):
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    return bool(arr.NP.isclose(a, b, rel_tol, abs_tol))


MATH = Fallback(_math, sqrt=_m1('sqrt', lambda x: core.sym_root(x, 2)), fabs=_m1('fabs', abs),
                floor=_m1('floor', lambda x: Int(x // 1)), ceil=_m1('ceil', lambda x: -Int((-x) // 1)),
                trunc=_m1('trunc', lambda x: Int(x)), pow=_m1('pow', _pow), isclose=_isclose,
                isnan=_m1('isnan', lambda x: False), isinf=_m1('isinf', lambda x: False),
                isfinite=_m1('isfinite', lambda x: True), copysign=_m1('copysign', lambda x, y: abs(x) if y >= 0 else -abs(x)),
                fmod=_m1('fmod', lambda x, y: x - y * Int(x / y)), cbrt=_m1('cbrt', lambda x: arr.NP.cbrt(x)))

LOGGING = Fallback(_logging, getLogger=lambda *a: NULLLOG, basicConfig=lambda *a, **k: None,
                   error=lambda *a, **k: None, info=lambda *a, **k: None, warning=lambda *a, **k: None, debug=lambda *a, **k: None)
IO = Fallback(_io, StringIO=StringIO, open=sx_open, TextIOBase=VFile)
OS = Fallback(_os, path=_ospath, stat=_vf(_vstat), replace=_vmove, rename=_vmove, remove=_vf(_vremove), unlink=_vf(_vremove),
              access=_vf(_vaccess))

SHIMS = {'numpy': arr.NP, 're': rx.RX, 'io': IO, 'os': OS, 'os.path': _ospath, 'pathlib': PATHLIB, 'math': MATH, 'logging': LOGGING}


_CODE = {}
_YAML = {}


class _Yaml:
    """yaml with the (pure, slow) loading of a given text done once."""

    def __getattr__(self, n):
        import yaml
        return getattr(yaml, n)

    def safe_load(self, s):
        import pickle
        import yaml
        if hasattr(s, 'read'):
            s = s.read()
        if isinstance(s, SymStr):
            s = s.conc()
        if s not in _YAML:
            _YAML[s] = pickle.dumps(yaml.safe_load(s))
        return pickle.loads(_YAML[s])


SHIMS['yaml'] = _Yaml()


class Loaded:
    """One symbolic instance of the package."""

    def __init__(self, extra=None):
        self.mods = {}
        self.sources = {}
        self.shims = dict(SHIMS)
        if extra:
            self.shims.update(extra)
        b = dict(vars(builtins))
        b.update({
            'int': Int, 'float': Float, 'str': Str, 'bool': Bool, 'isinstance': sx_isinstance, 'type': sx_type,
            'open': sx_open, 'print': sx_print, '__import__': self._import,
            'repr': lambda o: to_str(o) if has_sym(o) else repr(o),
            'format': lambda o, s='': fmt_value(o, s), 'ord': lambda c: ord(c.conc() if isinstance(c, SymStr) else c),
            '__sx_m__': get_method, '__sx_f__': sx_f, '__sx_mod__': sx_mod, '__sx_in__': sx_in,
            '__sx_nin__': lambda a, b: not sx_in(a, b), '__sx_is__': sx_is, '__sx_nis__': lambda a, b: not sx_is(a, b),
            '__sx_reraise__': sx_reraise, '__sx_enter__': sx_enter,
        })
        self.builtins = b

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'] if globals.get('__package__') else globals['__name__'].rpartition('.')[0]
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            name = f'{base}.{name}' if name else base
        if name == PKG or name.startswith(PKG + '.'):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._path(f'{name}.{f}'):
                        setattr(m, f, self.load(f'{name}.{f}'))
                return m
            return self.load(PKG)
        if name in self.shims:
            if fromlist or '.' not in name:
                return self.shims[name]
            return self.shims[name.split('.')[0]]
        top = name.split('.')[0]
        if top in self.shims and not fromlist:
            return self.shims[top]
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _path(self, name):
        p = _os.path.join(REPO, *name.split('.'))
        if _os.path.isdir(p) and _os.path.exists(_os.path.join(p, '__init__.py')):
            return _os.path.join(p, '__init__.py')
        return p + '.py' if _os.path.exists(p + '.py') else None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self._path(name)
        if path is None:
            raise ModuleNotFoundError(name)
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
        if name in self.mods:
            return self.mods[name]
        self.sources[name] = path
        if path not in _CODE:
            with open(path, encoding='utf8') as f:
                src = f.read()
            tree = ast.parse(src, path)
            tree = Rewrite(name).visit(tree)
            ast.fix_missing_locations(tree)
            _CODE[path] = compile(tree, path, 'exec')
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if path.endswith('__init__.py') else parent
        if path.endswith('__init__.py'):
            m.__path__ = [_os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        exec(_CODE[path], m.__dict__)
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m
