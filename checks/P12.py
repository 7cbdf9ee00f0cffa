"""OUTCAR: run status and statistics follow the markers in the file and nothing else."""
from symex.harness import Tok

BOUNDS = ('1-3 ionic steps with 1-3 electronic steps each (quick) / 1-4, 10-12 ionic or electronic steps, run finished or not, NELM, NSW, IBRION, NBANDS and '
          'the electronic iteration numbers symbolic, parameters before or after unrelated lines with similar names or after those asked for, 7 timing lines '
          'and any of 4 memory lines with symbolic or missing values')
ASSUMPTIONS = ['NELM and NSW are printed; ionic steps are printed in increasing order starting from 1']

NOISE = ['   NELMIN=  2; NELMDL= -5', ' NELM = no', 'INCAR: NSW = 77', '   INSW   =     88   NSW = 99', '   POTIM  = 0.5000    time-step',
         ' General timing for this step', '   NPAR = 4; IBRIONX = 3', ' EDIFF is reached', '', '   LOOP+:  cpu time    3.67',
         ' total amount of memory used by VASP MPI-rank0    35065. kBytes', '   Iteration without number ( 3)']
TIMES = ['Total CPU time used (sec)', 'User time (sec)', 'System time (sec)', 'Elapsed time (sec)', 'Maximum memory used (kb)',
         'Average memory used (kb)']
MEM = ['base', 'nonlr-proj', 'grid', 'wavefun']


def iteration(i, e):
    return f'--------------------------------------- Iteration {i:6d}({e:4d})  ---------------------------------------'


def parse(h, L, src='handler'):
    O = h.mod('outcar').Outcar
    text = h.lines(L)
    if src == 'path':
        p = h.path(text)
        return h.run(lambda: O(file_path=p, logger=h.logger))
    return h.run(lambda: O(file_handler=h.file(text), logger=h.logger))


def params(h, noise):
    nelm, nsw, ibrion = h.inum('nelm', 1, 99, 7), h.inum('nsw', 0, 999, 7), h.inum('ibrion', -1, 44, 7)
    nb = h.inum('nbands', 1, 9999, 7)
    L = [h.join('', ['   k-points           NKPTS =    128   k-points in BZ     NKDIM =    128   number of bands    NBANDS=', nb.text]),
         h.join('', ['   NELM   =', nelm.text, ';   NELMIN=  2; NELMDL=  0     # of ELM steps']),
         h.join('', ['   NSW    =', nsw.text, '    number of steps for IOM']),
         h.join('', ['   IBRION =', ibrion.text, '    ionic relax: 0-MD 1-quasi-New 2-CG'])]
    if noise:
        L = [noise] + L + [noise]
    return L, nelm.val, nsw.val, ibrion.val, nb.val


def status(hi, many=None):
    def har(h):
        if many:
            noise = None
            steps = h.choice('steps', many)
            n = len(steps)
        else:
            noise = h.choice('noise', [None] + NOISE)
            n = h.size('ionic', 1, hi if noise is None else 2)
            steps = [h.size(f'e{i}', 1, hi if noise is None else 2) for i in range(n)]
        fin = h.choice('finished', [False, True])
        P, nelm, nsw, ibrion, nb = params(h, noise)
        L = list(P)
        for i, e in enumerate(steps):
            for j in range(e):
                L.append(iteration(i + 1, j + 1))
                if noise is not None:
                    L.append(noise)
        if fin:
            L += ['', ' General timing and accounting informations for this job:', ' ' + '=' * 40, '']
        if noise is not None:
            L.append(noise)
        r = parse(h, L, 'path' if noise == '' else 'handler')
        h.check(r.ok, 'OUTCAR is parsed')
        s = r.value.get_run_status()
        h.eq([s['nelm'], s['nsw'], s['nbands']], [nelm, nsw, nb], 'NELM, NSW and NBANDS')
        h.eq(s['last_iteration_index'], [n, steps[-1]], 'last iteration')
        h.check(s['finished'] is fin, 'finished exactly when the timing section is there')
        if not fin:
            ionic = False
        elif h.true(ibrion <= 0):
            ionic = None
        elif h.true(n < nsw):
            ionic = True
        elif h.true(nsw <= 1):
            ionic = None
        else:
            h.assume(nsw == n)
            ionic = False
        h.check(s['ionic_converged'] is ionic, 'ionic convergence')
        h.check(s['electronic_converged'] is (fin and h.true(steps[-1] < nelm)), 'electronic convergence')
        full = [h.true(e >= nelm) for e in steps]
        h.check(s['contains_nelm_breach'] is any(full), 'some ionic step used NELM electronic steps')
        cons = all(full) if fin else (all(full[:-1]) and n > 1)
        h.check(s['consistent_nelm_breach'] is cons, 'all ionic steps used NELM electronic steps')
        h.check(set(s) == {'nelm', 'nsw', 'nbands', 'last_iteration_index', 'finished', 'ionic_converged', 'electronic_converged',
                           'consistent_nelm_breach', 'contains_nelm_breach'}, 'status entries')
    return har


def printed(h):
    """Iteration numbers of any size; the last one counts."""
    P, nelm, nsw, ibrion, nb = params(h, None)
    i, e = h.choice('ionic', [Tok('     2', 2), Tok('   101', 101), Tok('123456', 123456)]), h.inum('electronic', 1, 9999, 4)
    fin = h.choice('finished', [False, True])
    # What the user asked for is repeated first, the parameters used are printed below
    P = h.choice('asked', [[], ['   NELM = 7', '   NSW = 5', '   IBRION = 2']]) + P
    L = P + [iteration(1, 1), h.join('', ['---- Iteration ', i.text, '(', e.text, ')  ----'])]
    if fin:
        L.append(' General timing and accounting informations for this job:')
    r = parse(h, L)
    h.check(r.ok, 'OUTCAR is parsed')
    s = r.value.get_run_status()
    h.eq(s['last_iteration_index'], [i.val, e.val], 'last iteration')
    h.eq([s['nelm'], s['nsw'], s['nbands']], [nelm, nsw, nb], 'NELM, NSW and NBANDS')
    if fin:
        h.check(s['electronic_converged'] is h.true(e.val < nelm), 'electronic convergence')


def stats(h):
    P = ['   NELM   =     60;   NELMIN=  2; NELMDL=  0     # of ELM steps', '   NSW    =     61    number of steps for IOM']
    miss = h.choice('missing', [None] + list(range(len(TIMES))))
    blank = h.choice('blank', ['', '      N/A']) if miss is not None else ''
    nmem = h.size('mem', 0, len(MEM))
    tail = h.choice('tail', [0, 3, 20])
    L = P + [iteration(1, 1), '   earlier      :      30000. kBytes'] + [' filler'] * 50
    exp = {}
    for k in range(nmem):
        v = h.num(f'm{k}', 1, 0, 99999999, 11)
        L.append(h.join('', [f'   {MEM[k]:10s}:', v.text, ' kBytes']))
        exp['mem_usage_' + MEM[k]] = v.val
    L += ['', ' General timing and accounting informations for this job:', '']
    for k, t in enumerate(TIMES):
        name = '_'.join(t.lower().split()[:-1])
        if k == miss:
            L.append(f'{t:>44}:{blank}')
            exp[name] = None
        else:
            v = h.num(f't{k}', 3, 0, 9999999, 13)
            L.append(h.join('', [f'{t:>44}:', v.text]))
            exp[name] = v.val
    L += ['                          Minor page faults:        16913', '                          Major page faults:          281',
          '                 Voluntary context switches:        20301'] + [' '] * tail
    if tail > 3:  # what newer versions print below
        L[-10:] = ['', ' PROFILE, used timers:     275', ' =============================', '', ' index    routine     time',
                   ' ------------------------', '    total_time     3.61', '      vamp      3.61', '', '']
    r = parse(h, L, h.choice('src', ['handler', 'path']))
    h.check(r.ok, 'OUTCAR is parsed')
    h.check(r.value.get_run_status()['finished'] is True, 'finished')
    h.eq(r.value.get_run_stats(), exp, 'run statistics')


def nothing(h):
    """No iteration at all is the documented crash."""
    P, *_ = params(h, h.choice('noise', NOISE))
    fin = h.choice('finished', [False, True])
    if fin:
        P.append(' General timing and accounting informations for this job:')
    r = parse(h, P)
    h.check(r.kind == 'exit' and r.code == 600, 'no iterations: documented exit code')


def harnesses(tier):
    return [('status', status(3 if tier == 'quick' else 4)), ('many', status(0, [[1] * 10, [2, 1] * 6, [12], [11, 3], [2, 12], [10, 10], [2] * 10 + [1], [3] * 11 + [1], [1] + [2] * 10])), ('printed', printed), ('stats', stats), ('nothing', nothing)]
