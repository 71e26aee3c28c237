from nets import *
from rules_c02 import guarded
from rules_c18 import points
from rules_c19 import adjustments


def check(rep):
    guarded(rep, step, rep, add(sym('n'), const(2)), add(sym('B'), ONE), '')
    for n, B in ((2, 2), (3, 1), (4, 2)):
        guarded(rep, step, rep, const(n), const(B), '/%d layers, %d points' % (n, B))
    guarded(rep, shallow, rep)
    for i in range(4):
        guarded(rep, trained, rep, i)
    adjustments(rep, 'adjustment/')


def setup(rep, n, B, layers):
    prog = rep.prog
    ty = tykey(io_ty(prog))
    run = Run(prog, contracts=training_contracts(prog))
    cell = run.cell(net(prog, layers))
    func = mk('obj', 'lossf', (), tykey({'k': 'adt', 'p': adt_path(prog, 'ComplexLossFunc'), 'a': []}))
    got = call(rep, run, inherent(prog, 'CNetwork', 'gradient_opt'),
               [cell, points(prog, B, lambda i: mk('obj', 'Y', (i,), ty)), run.cell(func), app('lr', sort='c')])
    return run, cell, got, func


def backward(prog, n, b, func):
    """k -> derivatives of the loss of point b, before passing the k-th layer counted from the last."""
    ty = tykey(io_ty(prog))
    ety = tykey({'k': 'param', 'n': 'T'})
    inp = mk('obj', 'X', (b,), ty)
    at = outputs(prog, L(prog), inp)
    tgt = mk('obj', 'Y', (b,), ty)
    dl = lambda i: app('dl', tgt, at(n), func, i, sort='c')
    m = app('no', tgt, at(n), sort='i')
    inits = (seql(m, dl), seql(m, lambda i: T.f_conj(dl(i))))

    def after(k):
        k = num(k)
        c = T.as_int(k)
        if c is not None:
            d = inits
            for i in range(c):
                j = sub(sub(n, ONE), const(i))
                l = L(prog)(j)
                d = tuple(ite(propagates(l), upstream(w, l, at(j), *d), x) for w, x in zip(('da', 'dac'), d))
            return d
        names = [T.fresh_name('φ'), T.fresh_name('φ')]
        kv = fresh('k', k)
        accs = [mk('seqphi', x, ety, ()) for x in names]
        j = sub(sub(n, ONE), atom(kv))
        l = L(prog)(j)
        posts = tuple(ite(propagates(l), upstream(w, l, at(j), *accs), acc) for w, acc in zip(('da', 'dac'), accs))
        fo = T.mk_fold(k, inits, posts, kv, names, [('seq', ety)] * 2)
        return tuple(mk('seqphi', 'prj%d' % i, ety, (fo,)) for i in range(2))
    return at, after


def step(rep, n, B, key):
    """Any number of layers and points, and small fixed numbers for loops that have no summary."""
    prog = rep.prog
    run, cell, got, func = setup(rep, n, B, seql(n, L(prog)))
    rep.never_panics('gradient_opt/no-panic' + key, run, sampler=s)
    rep.equal('gradient_opt/accepts' + key, run, run.variant(got, 0), TRUE, sampler=s, rule='a step on two or more layers succeeds')
    lr = app('lr', sort='c')

    def grad(what, j, i):
        def one(b):
            at, after = backward(prog, n, b, func)
            return app(what, L(prog)(j), at(j), *after(sub(sub(n, ONE), j)), i, sort='c')
        return div(mul(lr, T.sume(B, one)), B)

    def updated(j):
        l = L(prog)(j)
        return ite(propagates(l), mk('obj', 'adj', (l, seql(PW(l), lambda i: grad('dw', j, i)), seql(PB(l), lambda i: grad('db', j, i))),
                                     tykey(layer_ty(prog))), l)
    rep.equal('gradient_opt/layers' + key, run, opaque(run.get(cell)), net(prog, seql(n, updated)), sampler=s,
              rule='every propagating layer adjusted once by the scaled batch gradient, the others untouched')


def shallow(rep):
    prog = rep.prog
    B = add(sym('B'), ONE)
    for m in (0, 1):
        old = seqe(tuple(L(prog)(const(i)) for i in range(m)))
        run, cell, got, func = setup(rep, const(m), B, old)
        rep.equal('gradient_opt/%d layers/error' % m, run, got, err(), rule='too shallow a network is an error')
        rep.equal('gradient_opt/%d layers/unchanged' % m, run, opaque(run.get(cell)), net(prog, old), rule='nothing changes')
        rep.never_panics('gradient_opt/%d layers/no-panic' % m, run)


def trained(rep, i):
    """Which kinds of layers a step adjusts."""
    import rules_c14
    prog = rep.prog
    layer, *_ = rules_c14.layer(prog, i, '')
    run = Run(prog)
    got = call(rep, run, inherent(prog, 'CLayer', 'propagates'), [run.cell(layer)])
    rep.equal('propagates/%s' % KINDS[i][0], run, got, FALSE if KINDS[i][0] == 'Flatten' else TRUE, rule='every layer but flattening takes part')
    rep.never_panics('propagates/%s/no-panic' % KINDS[i][0], run)
