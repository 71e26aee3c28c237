from spec import *
from rules_c01 import cplx, PREC
from rules_c02 import guarded


def check(rep):
    for ty, fl in PREC:
        guarded(rep, one_hot, rep, 'Complex', ty)
        guarded(rep, one_hot, rep, 'Real', fl)


def one_hot(rep, tr, ty):
    prog = rep.prog
    f = trait_fn(prog, tr, 'gen_pred', ty)
    pm = [q for q in prog.adts if q.split('::')[-1] == 'PredictModel'][0]
    n, k = app('size', sort='i'), app('index', sort='i')
    run = Run(prog)
    got = run.call(f, [n, k, run.cell(adt(pm, 0))])
    rep.note_run(run)
    key = '%s::gen_pred' % ty
    if got is None:
        got = top('never returns')
    if tr == 'Complex':
        path = cplx(prog, ty, 'z')[0].a[0]
        elem = lambda i: adt(path, 0, nite(cmp_eq(i, k), ONE, ZERO), ZERO)
    else:
        elem = lambda i: nite(cmp_eq(i, k), ONE, ZERO)
    inside = cmp_gt(sub(n, k))
    s = lambda i: {'maxdim': 2 + i % 5}
    rep.never_panics(key + '/no-panic', run, sampler=s)
    rep.equal(key + '/one-hot', run, got, ok(seql(n, elem)), pre=[inside], rule='unit vector of the size', sampler=s)
    rep.equal(key + '/rejected', run, got, err(), pre=[bnot(inside)], rule='index not below the size is an error', sampler=s)
