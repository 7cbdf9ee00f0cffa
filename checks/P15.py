"""Stream: notifications follow exactly the recognition strings found in the standard stream."""
import os

BOUNDS = ('standard configuration: each of its 26 entries with its message embedded in a line (before/after texts, one symbolic character '
          'anywhere in the message, message split over two lines or repeated), up to 2 of them together, with and without history; own '
          'configurations: up to 3 own entries of every kind, severity and inverse flag with literal recognition strings over streams of '
          'up to 3 lines of up to 3 symbolic characters (thorough: 4 lines); path and handler')

# What VASP prints, and the entry of the standard configuration it belongs to
MESSAGES = {
    'ibzkpt': 'internal error in subroutine IBZKPT', 'brmix': 'BRMIX: very serious problems', 'cnormn': 'WARNING: CNORMN',
    'denmp': "WARNING: DENMP: can't reach specified precision", 'dentet': 'WARNING: DENTET',
    'edddav_zhegv': 'Error EDDDAV: Call to ZHEGV failed', 'eddrmm_zhegv': 'WARNING in EDDRMM: call to ZHEGV failed',
    'edwav': 'EDWAV: internal error', 'fexcp': 'ERROR FEXCP: supplied Exchange', 'fock_acc': 'internal error in FOCK_ACC',
    'invgrp': 'internal error in subroutine INVGRP', 'kpoints_trans': 'internal error in GENERATE_KPOINTS_TRANS',
    'non_collinear': 'ERROR: non collinear calculations require', 'not_hermitian': 'not Hermitian in DAV',
    'psmaxn': 'PSMAXN for non-local potential too small', 'pssyevx': 'Error in subspace rotation PSSYEVX',
    'pzstein': 'PZSTEIN parameter number had an illegal value', 'real_optlay': 'REAL_OPTLAY: internal error',
    'rhosyg': 'RHOSYG: internal error', 'rspher': 'Internal ERROR RSPHER.',
    'set_indpw_full': 'internal error in SET_INDPW_FULL: insufficient', 'sgrcon': 'internal error in subroutine SGRCON',
    'zbrent': 'ZBRENT: fatal error in bracketing',
    'no_potim': 'Fatal error! IBRION=0, but no entry for POTIM on file INCAR. MUST be specified!!',
    'magmom': "Error reading item 'MAGMOM' from file INCAR", 'bandocc': 'TOO FEW BANDS',
}
RECOVER = {'ibzkpt'}
REPO = os.environ.get('VERIF_REPO', '/repo')
START = ' vasp.6.3.0 20Jan22 (build Apr 20 2022) complex'


def config(_c={}):
    if not _c:
        import yaml
        with open(os.path.join(REPO, 'parsevasp', 'stream.yml'), encoding='utf8') as f:
            _c.update(yaml.safe_load(f))
    return _c


def parse(h, lines, src='handler', **kw):
    S = h.mod('stream').Stream
    text = h.lines(lines)
    if src == 'path':
        p = h.path(text)
        return h.run(lambda: S(file_path=p, logger=h.logger, **kw))
    return h.run(lambda: S(file_handler=h.file(text), logger=h.logger, **kw))


def names(s):
    return [e.shortname for e in s.entries]


def compare(h, s, per_line, tail=()):
    """per_line: for each line the set of entries it gives, in any order within the line."""
    got = names(s)
    i = 0
    for want in per_line:
        h.check(sorted(got[i:i + len(want)]) == sorted(want), 'notifications of each line, in the order of the stream')
        i += len(want)
    h.check(sorted(got[i:]) == sorted(tail), 'inverse entries exactly when their text is absent')
    n = sum(len(w) for w in per_line) + len(tail)
    h.check(s.number_of_entries == n and s.has_entries == (n > 0), 'number of notifications')


def standard(h):
    """One message of the standard configuration, intact or with one letter changed."""
    name = h.choice('name', list(MESSAGES))
    msg = MESSAGES[name]
    k = h.choice('pos', range(len(msg)))
    before, after, start, src = h.choice('around', [('', '', True, 'handler'), (' ', ' 5', False, 'path'), ('|     ', '     |', True, 'path'),
                                                    ('-' * 300, '-' * 300, True, 'handler')]) \
        if k == 0 else (('', '', True, 'handler') if k % 2 else (' | ', '.', False, 'handler'))
    c = h.char('c', msg[k] + 'aE:x')
    line = h.join('', [before, msg[:k], c, msg[k + 1:], after])
    r = parse(h, ([START] if start else []) + [line, ' entering main loop'], src)
    h.check(r.ok, 'stream is parsed')
    # the recognition strings are regular expressions, in which a full stop is any character
    hit = msg[k] == '.' or h.true(c == msg[k])
    tail = [] if start else ['nostart']
    compare(h, r.value, [[name] if hit else []], tail)
    if hit:
        e = r.value.entries[0]
        h.check(e.kind == 'ERROR', 'kind')
        h.check(e.recover is (name in RECOVER) and e.recoverable is (name in RECOVER), 'severity')
        d = config()[name]
        h.check([e.inverse, e.location, e.message, e.suggestion] == [False, d['location'], d['message'], d['suggestion']],
                'entry attributes')
        h.check(str(e) == f'(ERROR) {name}: {e.message}', 'report')
    if tail:
        e = r.value.entries[-1]
        h.check(e.inverse is True and e.recover is False and e.message == 'VASP has not been started.', 'absence of a start')


def several(h):
    """Messages together: order and repetition."""
    history = h.choice('history', [False, True])
    n = h.size('n', 0, 3)
    ks = ['zbrent', 'kpoints_trans', 'magmom']
    pick = []
    for i in range(n):
        pick.append(h.choice(f'm{i}', ks if i == 0 else [pick[0], 'zbrent', 'ibzkpt', None]))
    layout = h.choice('layout', ['lines', 'one line', 'split'] if n > 1 else ['lines'])
    L, per = [], []
    if layout == 'one line':
        L = [' '.join([MESSAGES[p] if p else 'DAV: 1' for p in pick])]
        per = [sorted({p for p in pick if p})]
    else:
        for p in pick:
            msg = MESSAGES[p] if p else 'RMM: 2'
            if layout == 'split' and p:
                L += [msg[:7], msg[7:]]
                per += [[], []]
            else:
                L.append(msg)
                per.append([p] if p else [])
    if not history:
        seen = set()
        for w in per:
            for x in list(w):
                if x in seen:
                    w.remove(x)
                seen.add(x)
    where = h.choice('start', [None, 0, len(L)] if n < 2 else [None, len(L)])
    if where is not None:
        L.insert(where, START)
        per.insert(where, [])
    r = parse(h, L, 'handler', history=history)
    h.check(r.ok, 'stream is parsed')
    compare(h, r.value, per, [] if where is not None else ['nostart'])


PATTERNS = ['ab', 'b', 'aa']


def found(h, pat, line):
    """Is pat in the line (a list of characters)?"""
    for i in range(len(line) - len(pat) + 1):
        if all([h.true(line[i + j] == pat[j]) for j in range(len(pat))]):
            return True
    return False


def entry(h, i, pat, inverse=None, compiled=False):
    import re

    from symex.rx import RX
    comp = RX.compile if h.symbolic else re.compile
    kind, loc, rec = h.choice(f'attr{i}', [('ERROR', 'STDOUT', True), ('WARNING', 'STDERR', False), ('error', 'STDERR', True),
                                           ('WARNING', 'STDOUT', True)])
    d = {'kind': kind, 'regex': comp(pat) if compiled else pat, 'message': f'message {i}', 'suggestion': f'do {i}',
         'location': loc, 'recover': rec}
    if inverse is not None:
        d['inverse'] = inverse
    return d


def own(h):
    """Own entries over every short stream."""
    nl = h.size('nl', 0, 3)
    nc = h.size('nc', 1, 2 if nl < 3 or BIG else 1)
    history = h.choice('history', [False, True])
    v = h.choice('inv', [(None, None), (True, None), (None, True), (False, True), (True, True)])
    cfg = {'first': {'kind': 'ERROR', 'regex': 'ab', 'message': 'm1'}, 'second': {'kind': 'WARNING', 'regex': 'b', 'message': 'm2'},
           'nostart': {'kind': 'ERROR', 'regex': 'vasp.', 'message': 'unused'}}
    for k, x in zip(('first', 'second'), v):
        if x is not None:
            cfg[k]['inverse'] = x
    L = [[h.char(f'c{i}_{j}', 'ab ') for j in range(nc)] for i in range(nl)]
    r = parse(h, [h.join('', x) for x in L], history=history, config=cfg)
    h.check(r.ok, 'stream is parsed')
    per = [[] for _ in L]
    tail = []
    for name, pat, inv in (('first', 'ab', v[0]), ('second', 'b', v[1])):
        hits = [found(h, pat, x) for x in L]
        if inv:
            if not any(hits):
                tail.append(name)
            continue
        for i, x in enumerate(hits):
            if x and (history or not any(hits[:i])):
                per[i].append(name)
    compare(h, r.value, per, tail)


def override(h):
    """An override changes the entry it names, in every attribute, and no other."""
    target = h.choice('target', ['zbrent', 'nostart', 'brand_new', 'ibzkpt'])
    inverse = h.choice('inverse', [None, False, True])
    pat = h.choice('pattern', ['abc', ' bc ']) if inverse is None else 'abc'
    cfg = {target: entry(h, 0, pat, inverse, h.choice('compiled', [False, True]))}
    start = h.choice('start', [False, True])
    c, a = h.char('c', 'abxB '), h.char('a', 'a x')
    L = ([START] if start else []) + [h.join('', [' ', a, c, 'c ']), MESSAGES['bandocc'], MESSAGES['zbrent'], MESSAGES['ibzkpt']]
    r = parse(h, L, config=cfg)
    h.check(r.ok, 'stream is parsed')
    s = r.value
    hit = found(h, pat, [' ', a, c, 'c', ' '])
    per = ([[]] if start else []) + [[target] if hit and not inverse else [], ['bandocc'], ['zbrent'] if target != 'zbrent' else [],
                                     ['ibzkpt'] if target != 'ibzkpt' else []]
    tail = []
    if target != 'nostart' and not start:
        tail.append('nostart')
    if inverse and not hit:
        tail.append(target)
    compare(h, s, per, tail)
    d = cfg[target]
    for e in s.entries:
        if e.shortname == target:
            h.check([e.kind, e.regex.pattern, e.message, e.suggestion, e.location, e.recover, e.inverse] ==
                    [d['kind'], pat, d['message'], d['suggestion'], d['location'], d['recover'], bool(inverse)],
                    'attributes of an overridden entry')
        else:
            h.check(e.kind == 'ERROR' and e.recover is (e.shortname in RECOVER), 'other entries keep their attributes')
    every = [t.shortname for ts in s.configured_streams.values() for t in ts]
    h.check(set(every) == set(MESSAGES) | {'nostart', target}, 'configured entries')


def refused(h):
    """Malformed overrides never give a parser object."""
    bad = h.choice('bad', [('kind', 5), ('kind', 'FATAL'), ('kind', ''), ('name', 7), ('location', 'stdout'), ('message', 5), ('location', 'FILE'), ('recover', 'yes'), ('inverse', 1), ('message', None), ('suggestion', 3)])
    d = {'kind': 'ERROR', 'regex': 'ab', 'message': 'm', 'suggestion': '', 'location': 'STDOUT', 'recover': True, 'inverse': False}
    d[bad[0]] = bad[1]
    name = 7 if d.pop('name', None) else h.choice('name', ['mine', 'zbrent'])
    r = parse(h, [h.chars('c', 2, 'ab')], config={name: d})
    h.check(r.kind == 'exc' and r.exc == 'ValueError', 'malformed entry is a ValueError')


BIG = False


def harnesses(tier):
    global BIG
    BIG = tier == 'thorough'
    hs = [('standard', standard), ('several', several), ('own', own), ('override', override), ('refused', refused)]
    return hs
