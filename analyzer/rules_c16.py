from layers import *
from rules_c02 import guarded
from rules_c10 import conv_elem
from rules_c11 import upsampled, pad_elem, conv_spec


def small(i):
    return {'maxdim': 1 + i % 2, 'ranges': {v: (1, 1 + ((i * 37 + 11) >> j) % 2) for j, v in enumerate('FCpqyz')}}


def check(rep):
    for via in ('own', 'CLayer'):
        for kind, g in (('Dense', dense_gradient), ('Convolutional', conv_gradient), ('Reduce', reduce_gradient)):
            if via == 'CLayer' and guarded(rep, delegated, rep, kind):
                continue
            guarded(rep, g, rep, via)


def delegated(rep, kind):
    prog = rep.prog
    n, m = sym('n'), sym('m')
    layer = {'Dense': dense(prog, n, m), 'Convolutional': conv(prog, sym('F'), sym('C'), sym('p'), sym('q')),
             'Reduce': reduce_(prog, sym('C'), sym('p'), sym('q'), sym('u'), sym('v'))}[kind]
    inp = io_scalar(prog, seql(m, gen_elem('x'))) if kind == 'Dense' else io_matrix(prog, maps(prog, sym('C'), sym('r'), sym('c')))
    run = dispatches(prog, kind, 'compute_derivatives', layer, [inp, seql(sym('l'), gen_elem('d')), seql(sym('k'), gen_elem('e'))])
    if not run:
        return False
    rep.note_run(run)
    rep.fact('%s/CLayer' % kind.lower(), True, run.fn, 'the method of the layer is called with the same arguments')
    return True


def wrong_lengths(rep, key, kind, via, layer, inp, N, pre, smp, contracts=None):
    """Either list of derivatives has the wrong length."""
    l = sym('l')
    for nm, m, k in (('length', l, sym('k')), ('length-conj', N, l)):
        p = pre + (bnot(cmp_eq(l, N)),)
        run, got, lc, ic = run_gradient(rep, kind, via, layer, inp, seql(m, gen_elem('d')), seql(k, gen_elem('e')), p, contracts)
        rep.never_panics('%s/%s/no-panic' % (key, nm), run, pre=p, sampler=smp)
        rep.equal('%s/%s' % (key, nm), run, run.variant(got, 0), FALSE, pre=p, sampler=smp,
                  rule='derivatives of the wrong length are an error')


def run_gradient(rep, kind, via, layer, inp, d, e, pre=(), contracts=None):
    prog = rep.prog
    f = inherent(prog, 'CLayer' if via == 'CLayer' else dict(KINDS)[kind], 'compute_derivatives')
    lay = wrap(prog, kind, layer) if via == 'CLayer' else layer
    run = Run(prog, contracts)
    cl, ci = run.cell(lay), run.cell(inp)
    got = call(rep, run, f, [cl, ci, d, e], pre=pre)
    return run, got, (cl, lay), (ci, inp)


def parts(rep, key, run, got, wants, pre, smp):
    for i, (nm, rule, want) in enumerate(wants):
        g = component(run, got, i)
        rep.equal('%s/%s' % (key, nm), run, g, want, pre=pre, sampler=smp, rule=rule)


def component(run, got, i):
    """i-th returned vector of a successful result."""
    if got.op == 'ite':
        return ite(got.a[0], component(run, got.a[1], i), component(run, got.a[2], i))
    if got.op == 'adt' and got.a[0] == RESULT and got.a[1] == 0:
        return run.I.get(got.a[2][0], ('f', i))
    return got if got.op in ('top', 'unreach', 'undef') else top('error returned') if got.op != 'adt' else mk('unreach')


def delta(prog, q, d):
    """Derivative of the loss with respect to the pre-activation q: direct and conjugate term."""
    return add(mul(act(prog, q, 'd_activate'), d), mul(T.f_conj(act(prog, q, 'd_conj_activate')), T.f_conj(d)))


def dense_gradient(rep, via):
    prog = rep.prog
    n, m = sym('n'), sym('m')
    W, b, x, d = gen_elem('W'), gen_elem('b'), gen_elem('x'), gen_elem('d')
    pre = (cmp_ge(sub(m, ONE)),)
    key = 'dense/' + via
    layer, inp = dense(prog, n, m), io_scalar(prog, seql(m, x))
    run, got, lc, ic = run_gradient(rep, 'Dense', via, layer, inp, seql(n, d), seql(n, lambda i: T.f_conj(d(i))), pre)
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=s)
    rep.equal(key + '/accepts', run, run.variant(got, 0), TRUE, pre=pre, sampler=s, rule='fitting derivatives are accepted')

    def D(i):
        q = add(T.sume(m, lambda j: mul(W(add(mul(i, m), j)), x(j))), b(i))
        return delta(prog, q, d(i))

    def dw(k):
        i, j = T.f_divmod(k, m)
        return mul(x(j), D(i))
    da = lambda j: T.sume(n, lambda i: mul(W(add(mul(i, m), j)), D(i)))
    parts(rep, key, run, got, (
        ('weights', 'one derivative per weight, row by row', seql(mul(n, m), dw)),
        ('biases', 'one derivative per bias', seql(n, D)),
        ('inputs', 'one derivative per input', seql(m, da)),
        ('inputs-conj', 'conjugate of the propagated derivative', seql(m, lambda j: T.f_conj(da(j))))), pre, s)
    unchanged(rep, key, run, lc, ic, pre, s)
    wrong_lengths(rep, key, 'Dense', via, layer, inp, n, pre, s)


def unchanged(rep, key, run, lc, ic, pre, smp):
    for nm, (cell, v) in (('layer', lc), ('input', ic)):
        rep.equal('%s/%s-unchanged' % (key, nm), run, run.get(cell), v, pre=pre, sampler=smp, rule='nothing is modified')


def conv_gradient(rep, via):
    F, C, p, q, y, z = sym('F'), sym('C'), sym('p'), sym('q'), sym('y'), sym('z')
    pre = tuple(cmp_ge(sub(v, ONE)) for v in (F, C, p, q, y, z))
    conv_case(rep, via, 'conv/' + via, F, C, p, q, y, z, pre)


def conv_case(rep, via, key, F, C, p, q, y, z, pre):
    """F filters over C channels, p x q kernels, y x z output maps."""
    prog = rep.prog
    r, c = sub(add(y, p), ONE), sub(add(z, q), ONE)
    yz, pq, rc = mul(y, z), mul(p, q), mul(r, c)
    K = lambda f, i: app('K', f, i, sort='c')
    X = lambda f, i: app('X', f, i, sort='c')
    b, d = gen_elem('b'), gen_elem('d')
    layer, inp = conv(prog, F, C, p, q), io_matrix(prog, maps(prog, C, r, c))
    N = mul(F, yz)
    run, got, lc, ic = run_gradient(rep, 'Convolutional', via, layer, inp, seql(N, d), seql(N, lambda i: T.f_conj(d(i))), pre)
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=small)
    rep.equal(key + '/accepts', run, run.variant(got, 0), TRUE, pre=pre, sampler=small, rule='fitting derivatives are accepted')

    def D(f, i, j):
        pre_act = add(T.sume(C, lambda ch: conv_elem(lambda t: X(ch, t), lambda t: K(add(mul(f, C), ch), t), c, p, q)(i, j)), b(f))
        return delta(prog, pre_act, d(add(mul(f, yz), mul(i, z), j)))

    def dk(t):
        fc, ab = T.f_divmod(t, pq)
        f, ch = T.f_divmod(fc, C)
        a, bb = T.f_divmod(ab, q)
        return T.sume(y, lambda i: T.sume(z, lambda j: mul(X(ch, add(mul(add(i, a), c), j, bb)), D(f, i, j))))
    db = lambda f: T.sume(y, lambda i: T.sume(z, lambda j: D(f, i, j)))

    def da(t):
        ch, rs = T.f_divmod(t, rc)
        u, v = T.f_divmod(rs, c)

        def term(f, a, e):
            i, j = sub(u, a), sub(v, e)
            inside = band(cmp_ge(i), cmp_ge(sub(sub(y, ONE), i)), cmp_ge(j), cmp_ge(sub(sub(z, ONE), j)))
            return nite(inside, mul(K(add(mul(f, C), ch), add(mul(a, q), e)), D(f, i, j)), ZERO)
        return T.sume(F, lambda f: T.sume(p, lambda a: T.sume(q, lambda e: term(f, a, e))))
    with assume(*pre):
        wants = (('kernels', 'one derivative per kernel element in parameter order', seql(mul(mul(F, C), pq), dk)),
                 ('biases', 'one derivative per filter', seql(F, db)),
                 ('inputs', 'one derivative per input element', seql(mul(C, rc), da)),
                 ('inputs-conj', 'conjugate of the propagated derivative', seql(mul(C, rc), lambda t: T.f_conj(da(t)))))
    parts(rep, key, run, got, wants, pre, small)
    unchanged(rep, key, run, lc, ic, pre, small)
    wrong_lengths(rep, key, 'Convolutional', via, layer, inp, N, pre, lengths)


def lengths(i):
    kw = small(i)
    kw['ranges'].update({'l': (0, 4), 'k': (0, 4)})
    return kw


def reduce_gradient(rep, via):
    prog = rep.prog
    C, p, q, y, z, u, v = (sym(x) for x in ('C', 'p', 'q', 'y', 'z', 'u', 'v'))
    pre = tuple(cmp_ge(sub(t, ONE)) for t in (C, p, q, y, z))
    h, w = add(add(u, u), ONE), add(add(v, v), ONE)
    d, H = gen_elem('d'), gen_elem('H')
    yz = mul(y, z)
    N = mul(C, yz)
    key = 'reduce/' + via
    layer = reduce_(prog, C, p, q, h, w)
    inp = io_matrix(prog, maps(prog, C, mul(y, p), mul(z, q)))
    used = []

    def upsampling(I, st, a, c, at):
        m, blk, k = (I.deep(st, x) for x in a)
        sh = field(prog, m, 'shape')
        used.append(1)
        if sh.op == 'top' or blk.op == 'top':
            return top('up-sampling of an unknown matrix')
        return ok(matrix(prog, mul(seq_at(sh, ZERO), seq_at(blk, ZERO)), mul(seq_at(sh, ONE), seq_at(blk, ONE)),
                         lambda t: app('up', m, blk, k, t, sort='c')))
    cs = {inherent(prog, 'Matrix', 'fractional_upsampling')['p']: upsampling}
    e = lambda i: T.f_conj(d(i))
    run, got, lc, ic = run_gradient(rep, 'Reduce', via, layer, inp, seql(N, d), seql(N, e), pre, cs)
    size = mul(mul(y, p), mul(z, q))

    def propagated(x):
        def el(t):
            f, k = T.f_divmod(t, size)
            if used:
                m = matrix(prog, y, z, lambda i: x(add(mul(f, yz), i)))
                return app('up', m, seqe((p, q)), matrix(prog, h, w, H), k, sort='c')
            up = pad_elem(mul(z, q), u, v, mul(y, p), upsampled(y, z, p, q, lambda i: x(add(mul(f, yz), i))))
            m = conv_spec(prog, add(mul(y, p), add(u, u)), add(mul(z, q), add(v, v)), h, w, up, H)
            return seq_at(field(prog, m, 'body'), k)
        return seql(mul(C, size), el)
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=small)
    rep.equal(key + '/accepts', run, run.variant(got, 0), TRUE, pre=pre, sampler=small, rule='fitting derivatives are accepted')
    with assume(*pre):
        wants = (('weights', 'no parameters', seqe(())), ('biases', 'no parameters', seqe(())),
                 ('inputs', 'up-sampled derivatives of each map', propagated(d)),
                 ('inputs-conj', 'up-sampled conjugate derivatives of each map', propagated(e)))
    parts(rep, key, run, got, wants, pre, small)
    unchanged(rep, key, run, lc, ic, pre, small)
    wrong_lengths(rep, key, 'Reduce', via, layer, inp, N, pre, lengths, cs)
