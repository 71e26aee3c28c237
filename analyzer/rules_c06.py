from mats import *
from rules_c01 import cplx, PREC
from rules_c02 import guarded

LOSSES = ('MeanSquare', 'NormCrossEntropy')


def check(rep):
    for ty, fl in PREC:
        for loss in LOSSES:
            for entry in ('method', 'trait'):
                guarded(rep, one, rep, ty, loss, entry)


def fns(rep, ty, entry):
    s = ty.lower()
    if entry == 'method':
        return (inherent(rep.prog, 'ComplexLossFunc', 'compute_' + s),
                inherent(rep.prog, 'ComplexLossFunc', 'compute_d_' + s))
    return trait_fn(rep.prog, 'Complex', 'loss', ty), trait_fn(rep.prog, 'Complex', 'd_loss', ty)


def call(rep, run, f, entry, opt, t, p, pre):
    ct, cp, co = run.cell(t), run.cell(p), run.cell(opt)
    got = run.call(f, [co, ct, cp] if entry == 'method' else [ct, cp, co], pre=pre)
    rep.note_run(run)
    return got if got is not None else top('never returns')


def parts(e):
    return e.a[2]


def one(rep, ty, loss, entry):
    prog = rep.prog
    path = cplx(prog, ty, 'z')[0].a[0]
    opt = enum(prog, 'ComplexLossFunc', loss)
    f, fd = fns(rep, ty, entry)
    key = '%s/%s/%s' % (ty, loss, entry)
    n, m = sym('n', True), sym('m')
    k, r, c = sym('k', True), sym('r', True), sym('c', True)
    t, p = cf_elem(path, 't'), cf_elem(path, 'p')

    def maps(nm, k, r, c):
        rc = mul(r, c)
        return seql(k, lambda q: matrix(prog, r, c, lambda i: cf_elem(path, nm)(add(mul(q, rc), i))))
    krc = mul(mul(k, r), c)
    k2, r2, c2 = sym('k2', True), sym('r2', True), sym('c2', True)
    cases = [
        ('vector', io_scalar(prog, seql(n, t)), io_scalar(prog, seql(n, p)), n),
        ('maps', io_matrix(prog, maps('t', k, r, c)), io_matrix(prog, maps('p', k, r, c)), krc),
    ]
    for what, tv, pv, N in cases:
        kk = '%s/%s' % (key, what)
        run = Run(prog)
        got = call(rep, run, f, entry, opt, tv, pv, ())
        rep.equal(kk, run, got, ok(value(loss, t, p, N)), rule='loss equals its definition')
        rep.never_panics(kk + '/no-panic', run)
        run = Run(prog)
        got = call(rep, run, fd, entry, opt, tv, pv, ())
        rep.never_panics(kk + '/gradient/no-panic', run)
        gradient(rep, kk + '/gradient', run, got, loss, t, p, N, path)
    bad = [
        ('vector-length', io_scalar(prog, seql(m, t)), io_scalar(prog, seql(n, p)), bnot(cmp_eq(m, n))),
        ('maps-length', io_matrix(prog, maps('t', k2, r2, c2)), io_matrix(prog, maps('p', k, r, c)),
         bnot(cmp_eq(mul(mul(k2, r2), c2), krc))),
        ('kind1', io_scalar(prog, seql(n, t)), io_matrix(prog, maps('p', k, r, c)), TRUE),
        ('kind2', io_matrix(prog, maps('t', k, r, c)), io_scalar(prog, seql(n, p)), TRUE),
    ]
    for what, tv, pv, dom in bad:
        for g, nm in ((f, 'loss'), (fd, 'gradient')):
            run = Run(prog)
            got = call(rep, run, g, entry, opt, tv, pv, ())
            kk = '%s/%s/%s' % (key, nm, what)
            rep.equal(kk, run, got, err(), dom=dom, rule='mismatched target and prediction are rejected')
            rep.never_panics(kk + '/no-panic', run, dom=dom)


def value(loss, t, p, N):
    def d2(i):
        (a, b), (x, y) = parts(t(i)), parts(p(i))
        return add(mul(sub(a, x), sub(a, x)), mul(sub(b, y), sub(b, y)))
    if loss == 'MeanSquare':
        return div(T.sume(N, d2), N)
    n2 = lambda i: add(mul(parts(p(i))[0], parts(p(i))[0]), mul(parts(p(i))[1], parts(p(i))[1]))
    S = T.sume(N, lambda i: T.f_exp(n2(i)))
    return neg(T.sume(N, lambda i: mul(parts(t(i))[0], T.f_ln(div(T.f_exp(n2(i)), S)))))


def grad(loss, t, p, N, i):
    (a, b), (x, y) = parts(t(i)), parts(p(i))
    if loss == 'MeanSquare':
        return sub(x, a), sub(b, y)
    n2 = lambda j: add(mul(parts(p(j))[0], parts(p(j))[0]), mul(parts(p(j))[1], parts(p(j))[1]))
    S = T.sume(N, lambda j: T.f_exp(n2(j)))
    tt = T.sume(N, lambda j: parts(t(j))[0])
    co = sub(mul(tt, div(T.f_exp(n2(i)), S)), a)
    return mul(co, x), neg(mul(co, y))


def gradient(rep, key, run, got, loss, t, p, N, path):
    rule = 'gradient is a positive multiple of the Wirtinger derivative of the same loss'
    F = T.Fraction
    ks = [ONE, div(ONE, N), const(2), div(const(2), N), const(F(1, 2)), div(const(F(1, 2)), N), N]
    small = lambda i: {'pool': (0, 1, -1, F(1, 2), F(-1, 2), F(1, 4), F(3, 4))}

    def want(l, K):
        return ok(seql(N, lambda i: adt(path, 0, *[mul(K, v) for v in grad(l, t, p, N, i)])))
    res = []
    for K in ks:
        probe = Report(rep.prop, rep.prog, rep.tier, rep.seed)
        o = probe.equal('p', run, got, want(loss, K), rule=rule, sampler=small)
        res.append(o)
        if o['status'] in (PROVED, SAMPLED):
            break
    good = [o for o in res if o['status'] in (PROVED, SAMPLED)]
    und = [o for o in res if o['status'] == UNDECIDED]
    o = (good or und or res)[0]
    if o['status'] == REFUTED and loss == 'NormCrossEntropy':
        probe = Report(rep.prop, rep.prog, rep.tier, rep.seed)
        if probe.equal('p', run, got, want('MeanSquare', ONE), rule=rule)['status'] in (PROVED, SAMPLED):
            rep.add(key + '/is-squared-error', REFUTED, run.fn, rule, 'the squared-error gradient is returned')
            return
    rep.add(key, o['status'], run.fn, rule, o['detail'])
