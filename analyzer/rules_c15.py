from nets import *
from rules_c02 import guarded


def check(rep):
    guarded(rep, predict, rep)
    guarded(rep, collect, rep)
    guarded(rep, intercept, rep)


def setup(rep, name, layers):
    prog = rep.prog
    run = Run(prog, contracts=forward_contract(prog))
    cell = run.cell(net(prog, layers))
    return run, cell, inherent(prog, 'CNetwork', name)


def predict(rep):
    prog = rep.prog
    n = add(sym('n'), ONE)
    run, cell, f = setup(rep, 'forward', seql(n, L(prog)))
    got = call(rep, run, f, [cell, run.cell(x0(prog))])
    rep.never_panics('forward/no-panic', run, sampler=s)
    rep.equal('forward', run, opaque(got), ok(outputs(prog, L(prog), x0(prog))(n)), sampler=s,
              rule='all layers applied one after another, in order')
    run, cell, f = setup(rep, 'forward', seqe(()))
    got = call(rep, run, f, [cell, run.cell(x0(prog))])
    rep.equal('forward/empty', run, got, err(), rule='an empty network is an error')
    rep.never_panics('forward/empty/no-panic', run)


def collect(rep):
    prog = rep.prog
    n = add(sym('n'), ONE)
    run, cell, f = setup(rep, 'collect_acts', seql(n, L(prog)))
    got = call(rep, run, f, [cell, x0(prog)])
    rep.never_panics('collect_acts/no-panic', run, sampler=s)
    at = outputs(prog, L(prog), x0(prog))
    rep.equal('collect_acts', run, opaque(got), ok(seql(add(n, ONE), at)), sampler=s,
              rule='the input followed by the output of every layer')
    run, cell, f = setup(rep, 'collect_acts', seqe(()))
    got = call(rep, run, f, [cell, x0(prog)])
    rep.equal('collect_acts/empty', run, got, err(), rule='an empty network is an error')
    rep.never_panics('collect_acts/empty/no-panic', run)


def intercept(rep):
    prog = rep.prog
    n, k = sym('n'), sym('k')
    run, cell, f = setup(rep, 'intercept', seql(n, L(prog)))
    got = call(rep, run, f, [cell, x0(prog), k])
    inside = cmp_gt(sub(n, k))
    rep.never_panics('intercept/no-panic', run, sampler=s)
    rep.equal('intercept/accepts', run, run.variant(got, 0), inside, sampler=s, rule='an error exactly past the last layer')
    rep.equal('intercept', run, opaque(run.I.deep(run.st, got)), ok(mk('tup', outputs(prog, L(prog), x0(prog))(k), L(prog)(k))), dom=inside,
              sampler=s, rule='the output of the first k layers with the k-th layer')
