"""lxml for symbolic documents.

The document is handed to the real lxml with every symbolic piece of text (number, letter, ...)
standing as one private-use character; elements are wrapped so that their text comes back
symbolic. The event parser is fed in pieces cut where the harness (the solver) says."""
import io

from .strs import els_of, mk

BASE = 0xF0000
TOKS = []       # private-use character -> element
CUTS = {}       # virtual path -> byte offsets of chunk ends
CHUNK = 32768   # what lxml reads at once from a file
VFSB = {}       # virtual path -> bytes


def reset():
    TOKS.clear()
    CUTS.clear()
    VFSB.clear()


def encode(text):
    out = []
    for e in els_of(text):
        if type(e) is str:
            out.append(e)
        else:
            out.append(chr(BASE + len(TOKS)))
            TOKS.append(e)
    return ''.join(out).encode('utf8').replace(b'ISO-8859-1', b'UTF-8')


def decode(s):
    if not isinstance(s, str) or not any(ord(c) >= BASE for c in s):
        return s
    return mk([TOKS[ord(c) - BASE] if ord(c) >= BASE else c for c in s])


class Chunked(io.BytesIO):
    """A binary handler whose reads end at the given offsets."""

    def __init__(self, data, cuts=()):
        super().__init__(data)
        self.cuts = sorted(cuts)

    def read(self, n=-1):
        if n is None or n < 0:
            return super().read()
        p = self.tell()
        for c in self.cuts:
            if p < c:
                n = min(n, c - p)
                break
        return super().read(n)


class El:
    __slots__ = ('_e',)

    def __init__(self, e):
        object.__setattr__(self, '_e', e)

    @property
    def text(self):
        return decode(self._e.text)

    @property
    def tail(self):
        return decode(self._e.tail)

    def __getattr__(self, n):
        return wrap(getattr(self._e, n))

    def __iter__(self):
        return iter([wrap(x) for x in self._e])

    def __len__(self):
        return len(self._e)

    def __getitem__(self, k):
        return wrap(self._e[k])

    def __bool__(self):
        return bool(self._e)

    def __eq__(self, o):
        return isinstance(o, El) and o._e is self._e

    def __hash__(self):
        return hash(self._e)


def wrap(x):
    from lxml import etree
    if isinstance(x, (etree._Element, etree._ElementTree)):
        return El(x)
    if isinstance(x, etree._Attrib) or x is None or isinstance(x, (int, float, type)):
        return x
    if isinstance(x, str):
        return decode(x)
    if isinstance(x, list):
        return [wrap(v) for v in x]
    if callable(x):
        return lambda *a, **k: wrap(x(*[unwrap(v) for v in a], **{n: unwrap(v) for n, v in k.items()}))
    if hasattr(x, '__next__'):
        return (wrap(v) for v in x)
    return x


def unwrap(x):
    return x._e if isinstance(x, El) else x


def _source(s):
    """Readable bytes and chunk ends of what the caller handed in."""
    from . import loader
    if loader.is_virtual(s):
        if s not in VFSB:
            raise OSError(f"Error reading file '{s}': failed to load external entity")
        return Chunked(VFSB[s], CUTS.get(s, ()))
    return s


class Etree:
    def __getattr__(self, n):
        from lxml import etree
        return getattr(etree, n)

    def parse(self, source, parser=None, **k):
        from lxml import etree
        return El(etree.parse(_source(source), parser=parser, **k))

    def fromstring(self, s, parser=None):
        from lxml import etree
        return El(etree.fromstring(s if isinstance(s, bytes) else encode(s), parser=parser))

    def iterparse(self, source, events=('end',), **k):
        from lxml import etree
        src = _source(source)
        if isinstance(src, str):
            src = open(src, 'rb')
        p = etree.XMLPullParser(events=events, **k)
        while True:
            data = src.read(CHUNK)
            if not data:
                break
            err = None
            try:
                p.feed(data)
            except etree.XMLSyntaxError as e:
                err = e
            for ev, el in p.read_events():
                yield ev, wrap(el)
            if err:
                raise err
        err = None
        try:
            p.close()
        except etree.XMLSyntaxError as e:
            err = e
        for ev, el in p.read_events():
            yield ev, wrap(el)
        if err:
            raise err


class _Pkg:
    etree = Etree()


def shims():
    return {'lxml': _Pkg, 'lxml.etree': _Pkg.etree}


# harness side -------------------------------------------------------------


def sym_source(h, text, how, cut):
    data = encode(text)
    cuts = () if cut is None else (len(encode(cut)),)
    if how == 'handler':
        return Chunked(data, cuts)
    p = h.new_path()
    VFSB[p] = data
    CUTS[p] = cuts
    return p


FILL = '<!--fill-->'


def conc_source(h, text, how, cut):
    data = text.encode('latin-1')
    cuts = () if cut is None else (len(cut.encode('latin-1')),)
    if how == 'handler':
        return Chunked(data, cuts)
    if cuts and FILL.encode() in data[:cuts[0]]:
        # lxml reads a file in pieces of CHUNK bytes: move the cut there
        n = CHUNK - cuts[0]
        data = data.replace(b'<!--fill', b'<!--fill' + b'.' * n, 1)
    p = h.path('')
    with open(p, 'wb') as f:
        f.write(data)
    return p
