from layers import *
from rules_c02 import guarded
from rules_c10 import conv_elem
from rules_c11 import block_want


def check(rep):
    for via in ('own', 'CLayer'):
        guarded(rep, dense_forward, rep, via)
        guarded(rep, conv_forward, rep, via)
        guarded(rep, reduce_forward, rep, via)
        guarded(rep, flatten_forward, rep, via)


def target(prog, kind, via, layer):
    """(method, layer value) of the forward pass."""
    if via == 'CLayer':
        return inherent(prog, 'CLayer', 'foward'), wrap(prog, kind, layer)
    ty = dict(KINDS)[kind]
    for name in ('forward', 'foward'):
        try:
            return inherent(prog, ty, name), layer
        except Missing:
            pass
    raise Missing('%s::forward' % ty)


def run_forward(rep, kind, via, layer, inp, pre=()):
    f, lay = target(rep.prog, kind, via, layer)
    run = Run(rep.prog)
    cl, ci = run.cell(lay), run.cell(inp)
    got = call(rep, run, f, [cl, ci], pre=pre)
    return run, got, (cl, lay), (ci, inp)


def whole(rep, key, run, got, want, accept, lc, ic, pre=(), smp=s):
    """Accepts exactly the fitting inputs, computes want on them, never panics and modifies nothing."""
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=smp)
    if accept is not TRUE:
        rep.equal(key + '/accepts', run, run.variant(got, 0), accept, pre=pre, sampler=smp,
                  rule='an error exactly for inputs that do not fit')
    with assume(*pre):
        with assume(accept):
            w = ok(want())
            g = T.resimplify(got)
    rep.equal(key, run, g, w, dom=accept, pre=pre, sampler=smp, rule='forward pass equals its definition')
    for nm, (cell, v) in (('layer', lc), ('input', ic)):
        rep.equal('%s/%s-unchanged' % (key, nm), run, run.get(cell), v, pre=pre, sampler=smp, rule='nothing is modified')


def wrong_kind(rep, key, kind, via, layer, inp, pre=()):
    run, got, lc, ic = run_forward(rep, kind, via, layer, inp, pre)
    rep.equal(key + '/kind', run, got, err(), pre=pre, sampler=s, rule='inputs of the wrong kind are an error')
    rep.never_panics(key + '/kind/no-panic', run, pre=pre, sampler=s)


def dense_forward(rep, via):
    prog = rep.prog
    n, m, l, k, r, c = sym('n'), sym('m'), sym('l'), sym('k'), sym('r'), sym('c')
    W, b, x = gen_elem('W'), gen_elem('b'), gen_elem('x')
    layer = dense(prog, n, m)
    pre = (cmp_ge(sub(m, ONE)),)
    key = 'dense/' + via
    run, got, lc, ic = run_forward(rep, 'Dense', via, layer, io_scalar(prog, seql(l, x)), pre)

    def want():
        return io_scalar(prog, seql(n, lambda i: act(prog, add(
            T.sume(m, lambda j: mul(W(add(mul(i, m), j)), x(j))), b(i)))))
    whole(rep, key, run, got, want, cmp_eq(l, m), lc, ic, pre)
    wrong_kind(rep, key, 'Dense', via, layer, io_matrix(prog, maps(prog, k, r, c)), pre)


def conv_forward(rep, via):
    prog = rep.prog
    F, C, D, p, q, r, c, n = sym('F'), sym('C'), sym('D'), sym('p'), sym('q'), sym('r'), sym('c'), sym('n')
    K = lambda f, i: app('K', f, i, sort='c')
    X = lambda f, i: app('X', f, i, sort='c')
    b = gen_elem('b')
    layer = conv(prog, F, C, p, q)
    pre = tuple(cmp_ge(sub(v, ONE)) for v in (F, C, p, q))
    key = 'conv/' + via

    def want():
        fr, fc = add(sub(r, p), ONE), add(sub(c, q), ONE)

        def feature(f):
            def el(k):
                i, j = T.f_divmod(k, fc)
                return act(prog, add(T.sume(C, lambda d: conv_elem(lambda z: X(d, z), lambda z: K(add(mul(f, C), d), z),
                                                                  c, p, q)(i, j)), b(f)))
            return matrix(prog, fr, fc, el)
        return io_matrix(prog, seql(F, feature))
    fits = band(cmp_ge(sub(r, p)), cmp_ge(sub(c, q)))
    run, got, lc, ic = run_forward(rep, 'Convolutional', via, layer, io_matrix(prog, maps(prog, D, r, c)), pre)
    whole(rep, key, run, got, want, band(cmp_eq(C, D), fits), lc, ic, pre)
    # two maps of any two sizes
    two = seqe(tuple(matrix(prog, sym('r%d' % f), sym('c%d' % f), lambda i, f=f: X(const(f), i)) for f in (0, 1)))
    run, got, lc, ic = run_forward(rep, 'Convolutional', via, conv(prog, F, const(2), p, q), io_matrix(prog, two), pre)
    rep.never_panics(key + '/uneven-maps/no-panic', run, pre=pre, sampler=s, rule='undersized maps are an error, not a panic')
    small = bor(*[cmp_gt(sub(a, sym(b + str(f)))) for f in (0, 1) for a, b in ((p, 'r'), (q, 'c'))])
    rep.equal(key + '/uneven-maps/error', run, got, err(), pre=pre, dom=small, sampler=s,
              rule='undersized maps are an error, not a panic')
    wrong_kind(rep, key, 'Convolutional', via, layer, io_scalar(prog, seql(n, gen_elem('x'))), pre)


def reduce_forward(rep, via):
    prog = rep.prog
    C, p, q, n = sym('C'), sym('p'), sym('q'), sym('n')
    X = lambda f, i: app('X', f, i, sort='c')
    layer = reduce_(prog, C, p, q, sym('kr'), sym('kc'))
    key = 'reduce/' + via
    r, c = sym('r'), sym('c')
    pre = (cmp_ge(sub(C, ONE)),)
    run, got, lc, ic = run_forward(rep, 'Reduce', via, layer, io_matrix(prog, maps(prog, C, r, c)), pre)
    splits = band(cmp_ge(sub(p, ONE)), cmp_ge(sub(q, ONE)), cmp_eq(T.f_mod(r, p), ZERO), cmp_eq(T.f_mod(c, q), ZERO),
                  cmp_ge(sub(r, p)), cmp_ge(sub(c, q)))
    rep.never_panics(key + '/any-size/no-panic', run, pre=pre, sampler=s)
    rep.equal(key + '/accepts', run, run.variant(got, 0), splits, pre=pre, sampler=s,
              rule='an error exactly for maps that do not split into blocks')
    p, q, nb, mb = sym('p', True), sym('q', True), sym('nb', True), sym('mb', True)
    layer = reduce_(prog, C, p, q, sym('kr'), sym('kc'))
    inp = io_matrix(prog, maps(prog, C, mul(nb, p), mul(mb, q)))
    run, got, lc, ic = run_forward(rep, 'Reduce', via, layer, inp)
    g = mk('obj', 'g', ())

    def want():
        return io_matrix(prog, seql(C, lambda f: block_want(prog, nb, mb, p, q, g, lambda i: X(f, i),
                                                            lambda x: app('call', g, x, sort='c'))))
    whole(rep, key, run, got, want, TRUE, lc, ic)
    wrong_kind(rep, key, 'Reduce', via, layer, io_scalar(prog, seql(n, gen_elem('x'))))


def flatten_forward(rep, via):
    prog = rep.prog
    C, r, c, D, h, w, n = sym('C'), sym('r'), sym('c'), sym('D'), sym('h'), sym('w'), sym('n')
    X = lambda f, i: app('X', f, i, sort='c')
    layer = flatten(prog, h, w, D)
    key = 'flatten/' + via
    run, got, lc, ic = run_forward(rep, 'Flatten', via, layer, io_matrix(prog, maps(prog, C, r, c)))
    rc = mul(r, c)

    def want():
        def el(k):
            f, i = T.f_divmod(k, rc)
            return X(f, i)
        return io_scalar(prog, seql(mul(C, rc), el))
    whole(rep, key, run, got, want, TRUE, lc, ic)
    wrong_kind(rep, key, 'Flatten', via, layer, io_scalar(prog, seql(n, gen_elem('x'))))
