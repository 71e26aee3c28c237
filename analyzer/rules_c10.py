from mats import *
from rules_c02 import guarded


def s(i):
    return {'maxdim': 1 + i % 4}


def conv_elem(A, B, c, p, q):
    """Element (i,j) of the sliding inner product of A (c columns) with the p x q kernel B."""
    def at(i, j):
        return T.sume(p, lambda a: T.sume(q, lambda b: mul(A(add(mul(add(i, a), c), add(j, b))), B(add(mul(a, q), b)))))
    return at


def conv_spec(prog, r, c, p, q, A, B):
    fr, fc = add(sub(r, p), ONE), add(sub(c, q), ONE)
    at = conv_elem(A, B, c, p, q)

    def el(k):
        i, j = T.f_divmod(k, fc)
        return at(i, j)
    return matrix(prog, fr, fc, el)


def check(rep):
    guarded(rep, conv, rep)
    guarded(rep, conjugate, rep)


def conv(rep):
    prog = rep.prog
    f = inherent(prog, 'Matrix', 'convolution')
    A, B = gen_elem('A'), gen_elem('B')
    r, c, p, q = sym('r'), sym('c'), sym('p'), sym('q')
    m, k = matrix(prog, r, c, A), matrix(prog, p, q, B)
    run = Run(prog)
    rm, rk = run.cell(m), run.cell(k)
    got = run.call(f, [rm, rk])
    rep.note_run(run)
    got = got if got is not None else top('never returns')
    okc = band(cmp_ge(sub(r, p)), cmp_ge(sub(c, q)), cmp_ge(sub(p, ONE)), cmp_ge(sub(q, ONE)))
    rep.never_panics('convolution/no-panic', run, sampler=s)
    rep.equal('convolution/accepts', run, run.variant(got, 0), okc, sampler=s,
              rule='error exactly for kernels that are empty or too large')
    with assume(okc):
        want = ok(conv_spec(prog, r, c, p, q, A, B))
    res = T.resimplify(got)
    rep.equal('convolution/value', run, res, want, dom=okc, sampler=s,
              rule='shape and every element of the sliding inner product')
    try:
        v = run.I.get(run.I.get(res, ('v', 0)), ('f', 0))
    except Unsupported as e:
        v = top(str(e))
    with assume(okc):
        v = T.resimplify(v)
        rep.equal('convolution/shape', run, field(prog, v, 'shape'), field(prog, conv_spec(prog, r, c, p, q, A, B), 'shape'),
                  dom=okc, sampler=s, rule='shape of the result')
    rep.equal('convolution/matrix-unchanged', run, run.get(rm), m, sampler=s, rule='operands are not modified')
    rep.equal('convolution/kernel-unchanged', run, run.get(rk), k, sampler=s, rule='operands are not modified')
    # the common shapes as separate instances with the kernel size fixed
    for kp, kq in ((1, 1), (1, 3), (2, 2), (3, 1), (3, 3)):
        p, q = const(kp), const(kq)
        k = matrix(prog, p, q, B)
        run = Run(prog)
        pre = [cmp_ge(sub(r, p)), cmp_ge(sub(c, q))]
        got = run.call(f, [run.cell(m), run.cell(k)], pre=pre)
        rep.note_run(run)
        with assume(*pre):
            want = ok(conv_spec(prog, r, c, p, q, A, B))
        rep.equal('convolution/%dx%d' % (kp, kq), run, got if got is not None else top('never returns'), want, pre=pre,
                  sampler=s, rule='shape and every element of the sliding inner product')


def conjugate(rep):
    """The variant with the conjugated kernel, for kernels that fit."""
    prog = rep.prog
    f = inherent(prog, 'Matrix', 'cconvolution')
    A, B = gen_elem('A'), gen_elem('B')
    C = lambda k: T.f_conj(B(k))
    r, c = sym('r'), sym('c')
    for kp, kq in ((None, None), (1, 1), (1, 3), (2, 2), (3, 1), (2, 3)):
        p, q = (const(kp), const(kq)) if kp else (sym('p'), sym('q'))
        m, k = matrix(prog, r, c, A), matrix(prog, p, q, B)
        pre = [cmp_ge(sub(r, p)), cmp_ge(sub(c, q)), cmp_ge(sub(p, ONE)), cmp_ge(sub(q, ONE))]
        run = Run(prog)
        rm, rk = run.cell(m), run.cell(k)
        got = run.call(f, [rm, rk], pre=pre)
        rep.note_run(run)
        got = got if got is not None else top('never returns')
        key = 'cconvolution/' + ('%dx%d' % (kp, kq) if kp else 'value')
        rep.never_panics(key + '/no-panic', run, pre=pre, sampler=s)
        with assume(*pre):
            want = ok(conv_spec(prog, r, c, p, q, A, C))
        rep.equal(key, run, got, want, pre=pre, sampler=s,
                  rule='shape and every element of the sliding inner product with the conjugated kernel')
        rep.equal(key + '/unchanged', run, mk('tup', run.get(rm), run.get(rk)), mk('tup', m, k), pre=pre, sampler=s,
                  rule='operands are not modified')
