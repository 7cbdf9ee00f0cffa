"""KPOINTS documents shared by several checks."""


def words(h, name, word, rest):
    """A keyword whose first letter is in either case, followed by rest."""
    return h.join('', [h.anycase(name, word[0]), rest])


def explicit(h, npt, ntet, weights, head=None, p=8, label=''):
    d = {}
    pts = [[h.num(f'k{i}{j}', p, -2, 2) for j in range(3)] for i in range(npt)]
    ws = [h.num(f'w{i}', p, 0, 99) if weights else None for i in range(npt)]
    L = [f'  {npt}', head if head is not None else 'Direct']
    for q, w in zip(pts, ws):
        L.append(h.join('', [h.row(*(q + ([w] if w else []))), label]))
    d['points'] = [[[x.val for x in q], w.val if w else None, True] for q, w in zip(pts, ws)]
    d['tetra'] = d['tetra_volume'] = None
    if ntet is not None:
        L.append('Tetrahedra')
        v = h.num('tvol', p, 0, 1)
        L.append(h.row(str(ntet), v))
        t = [[h.inum(f't{i}{j}', 0, 99) for j in range(5)] for i in range(ntet)]
        L += [h.row(*x) for x in t]
        d['tetra'] = [[x.val for x in y] for y in t]
        d['tetra_volume'] = v.val
    d.update(mode='explicit', num_kpoints=npt, centering=None, divisions=None, shifts=None, generating_vectors=None)
    return L, d


def automatic(h, center, shift, p=8, zero='0'):
    div = [h.inum(f'd{j}', 1, 99) for j in range(3)]
    L = [zero, center, h.row(*div)]
    d = dict(divisions=[x.val for x in div], shifts=None)
    if shift:
        s = [h.num(f's{j}', p, -1, 1) for j in range(3)]
        L.append(h.row(*s))
        d['shifts'] = [x.val for x in s]
    d.update(mode='automatic', num_kpoints=int(zero), points=None, tetra=None, tetra_volume=None, generating_vectors=None)
    return L, d


def grg(h, head='Reciprocal', p=8):
    g = [[h.num(f'g{i}{j}', p, -9, 9) for j in range(3)] for i in range(3)]
    s = [h.num(f's{j}', p, -1, 1) for j in range(3)]
    L = ['0', head] + [h.row(*x) for x in g] + [h.row(*s)]
    d = dict(mode='automatic', num_kpoints=0, points=None, tetra=None, tetra_volume=None, divisions=None,
             centering='Reciprocal', generating_vectors=[[x.val for x in y] for y in g], shifts=[x.val for x in s])
    return L, d


def line(h, nseg, ref='Reciprocal', head='Line-mode', blank='', label='', p=8, most=99):
    n = h.inum('nper', 1, most)
    L = [n.text, head, ref]
    pts = []
    for i in range(nseg):
        for e in range(2):
            q = [h.num(f'k{i}{e}{j}', p, -2, 2) for j in range(3)]
            L.append(h.join('', [h.row(*q), label]))
            pts.append([[x.val for x in q], 1.0, True])
        if i + 1 < nseg and blank is not None:
            L.append(blank)
    d = dict(mode='line', num_kpoints=n.val, points=pts, tetra=None, tetra_volume=None, divisions=None, centering=None,
             generating_vectors=None, shifts=None)
    return L, d


def make(h, K, L, src, eol='\n', trail=0, last=True, **kw):
    """Build Kpoints from lines through one of the sources."""
    text = h.lines(L, eol) + eol * trail if last else h.join(eol, L)
    if src == 'string':
        return h.run(lambda: K(kpoints_string=text, logger=h.logger, **kw))
    if src == 'handler':
        return h.run(lambda: K(file_handler=h.file(text), logger=h.logger, **kw))
    p = h.path(text)
    return h.run(lambda: K(file_path=p, logger=h.logger, **kw))
