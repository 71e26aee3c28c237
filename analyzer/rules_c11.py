from mats import *
from rules_c02 import guarded
from rules_c10 import conv_spec


def s(i):
    return {'maxdim': 1 + i % 4}


A, B = gen_elem('A'), gen_elem('B')


def check(rep):
    guarded(rep, pad, rep)
    guarded(rep, flip, rep)
    guarded(rep, reduce_, rep)
    guarded(rep, upsample, rep)


def start(rep, name, args):
    f = inherent(rep.prog, 'Matrix', name)
    run = Run(rep.prog)
    return f, run


def pad_elem(c, P, Q, r, A):
    """Element of the padded matrix."""
    pc = add(c, add(Q, Q))

    def el(k):
        i, j = T.f_divmod(k, pc)
        inside = band(cmp_ge(sub(i, P)), cmp_gt(sub(add(P, r), i)), cmp_ge(sub(j, Q)), cmp_gt(sub(add(Q, c), j)))
        return ite(inside, A(add(mul(sub(i, P), c), sub(j, Q))), ZERO)
    return el


def pad(rep):
    prog = rep.prog
    f = inherent(prog, 'Matrix', 'pad')
    r, c, P, Q = sym('r'), sym('c'), sym('P'), sym('Q')
    run = Run(prog)
    got = run.call(f, [matrix(prog, r, c, A), mk('tup', P, Q)])
    rep.note_run(run)
    got = got if got is not None else top('never returns')
    rep.never_panics('pad/no-panic', run, sampler=s)
    want = matrix(prog, add(r, add(P, P)), add(c, add(Q, Q)), pad_elem(c, P, Q, r, A))
    rep.equal('pad', run, got, want, sampler=s, rule='defaults on each side, elements in the middle')
    rep.equal('pad/shape', run, field(prog, got, 'shape'), field(prog, want, 'shape'), sampler=s, rule='shape grows by both sides')


def flip(rep):
    prog = rep.prog
    f = inherent(prog, 'Matrix', 'flip')
    r, c = sym('r'), sym('c')
    run = Run(prog)
    m = matrix(prog, r, c, A)
    cell = run.cell(m)
    got = run.call(f, [cell])
    rep.note_run(run)
    got = got if got is not None else top('never returns')
    rep.never_panics('flip/no-panic', run, sampler=s)
    want = ok(matrix(prog, r, c, lambda k: A(sub(sub(mul(r, c), ONE), k))))
    rep.equal('flip', run, got, want, sampler=s, rule='both axes reversed')
    rep.equal('flip/unchanged', run, run.get(cell), m, sampler=s, rule='operand is not modified')


def reduce_(rep):
    prog = rep.prog
    f = inherent(prog, 'Matrix', 'block_reduce')
    r, c, p, q = sym('r'), sym('c'), sym('p'), sym('q')
    g = mk('obj', 'g', ())
    run = Run(prog)
    m = matrix(prog, r, c, A)
    cell = run.cell(m)
    got = run.call(f, [cell, run.cell(seqe((p, q))), g])
    rep.note_run(run)
    got = got if got is not None else top('never returns')
    rep.never_panics('block_reduce/no-panic', run, sampler=s)
    okc = band(cmp_ge(sub(p, ONE)), cmp_ge(sub(q, ONE)), cmp_eq(T.f_mod(r, p), ZERO), cmp_eq(T.f_mod(c, q), ZERO),
               cmp_ge(sub(r, p)), cmp_ge(sub(c, q)))
    rep.equal('block_reduce/accepts', run, run.variant(got, 0), okc, sampler=s,
              rule='error exactly for empty or non-dividing blocks')
    block_cases(rep, f)


def block_want(prog, n, m, p, q, g, A, call):
    """n x m blocks of size p x q."""
    c = mul(m, q)

    def el(k):
        i, j = T.f_divmod(k, m)

        def inner(t):
            a, b = T.f_divmod(t, q)
            return A(add(mul(add(mul(i, p), a), c), add(mul(j, q), b)))
        return call(seql(mul(p, q), inner))
    return matrix(prog, n, m, el)


def block_cases(rep, f):
    prog = rep.prog
    ty = f['args'][0]['t'] if f.get('args') else None
    g = mk('obj', 'g', ())
    for tag, p, q in [('general', sym('p', True), sym('q', True))] + [('%dx%d' % k, const(k[0]), const(k[1]))
                                                                    for k in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 2))]:
        n, m = sym('n', True), sym('m', True)
        run = Run(prog)
        mat = matrix(prog, mul(n, p), mul(m, q), A)
        cell = run.cell(mat)
        got = run.call(f, [cell, run.cell(seqe((p, q))), g])
        rep.note_run(run)
        got = got if got is not None else top('never returns')
        key = 'block_reduce/' + tag
        rep.never_panics(key + '/no-panic', run, sampler=s)
        want = ok(block_want(prog, n, m, p, q, g, A, lambda x: app('call', g, x, sort='c')))
        rep.equal(key, run, got, want, sampler=s, rule='function applied to each block, blocks and elements in row-major order')
        rep.equal(key + '/unchanged', run, run.get(cell), mat, sampler=s, rule='operand is not modified')


def upsample(rep):
    prog = rep.prog
    f = inherent(prog, 'Matrix', 'fractional_upsampling')
    conv = inherent(prog, 'Matrix', 'convolution')
    h, w = sym('h'), sym('w')
    for tag, p, q in (('no-rows-in-block', ZERO, sym('q')), ('no-columns-in-block', sym('p'), ZERO),
                      ('any-kernel', const(3), const(3)), ('any-kernel', const(2), const(1))):
        r, c = sym('r', True), sym('c', True)
        run = Run(prog, {conv['p']: smooth_contract(prog)})
        m, k = matrix(prog, r, c, A), matrix(prog, h, w, B)
        cell, kc = run.cell(m), run.cell(k)
        got = run.call(f, [cell, run.cell(seqe((p, q))), kc])
        rep.note_run(run)
        got = got if got is not None else top('never returns')
        okc = FALSE
        if tag == 'any-kernel':
            okc = band(cmp_eq(T.f_mod(h, const(2)), ONE), cmp_eq(T.f_mod(w, const(2)), ONE))
        key = 'upsampling/' + tag
        rep.never_panics(key + '/no-panic', run, sampler=s)
        rep.equal(key + '/accepts', run, run.variant(got, 0), okc, sampler=s,
                  rule='error exactly for empty blocks and even kernels')
        rep.equal(key + '/unchanged', run, run.get(cell), m, sampler=s, rule='operand is not modified')
    r, c = sym('r', True), sym('c', True)
    u, v = sym('u'), sym('v')
    odd, even = (lambda x: add(add(x, x), ONE)), (lambda x: add(add(x, x), const(2)))
    a, b = sym('a'), sym('b')
    inst = [('odd-odd', odd(a), odd(b), u, v), ('odd-even', odd(a), even(b), u, v), ('even-odd', even(a), odd(b), u, v),
            ('even-even', even(a), even(b), u, v), ('1x1', ONE, ONE, u, v), ('3x3', const(3), const(3), ONE, ONE),
            ('4x1', const(4), ONE, ONE, ZERO)]
    for tag, p, q, u, v in inst:
        up_case(rep, f, conv, 'upsampling/' + tag, r, c, p, q, u, v)


def smooth_contract(prog):
    """The convolution decided by C10: fails exactly for kernels that are empty or do not fit."""
    def smooth(I, st, args, callee, at):
        m, k = [I.deep(st, x) for x in args]
        ms, ks = field(prog, m, 'shape'), field(prog, k, 'shape')
        if m.op == 'top' or k.op == 'top' or ms.op == 'top' or ks.op == 'top':
            return top('convolution of an unknown matrix')
        (a, b), (p, q) = [(seq_at(x, ZERO), seq_at(x, ONE)) for x in (ms, ks)]
        fits = band(cmp_ge(sub(a, p)), cmp_ge(sub(b, q)), cmp_ge(sub(p, ONE)), cmp_ge(sub(q, ONE)))
        return ite(fits, ok(mk('obj', 'conv', (m, k), None)), err())
    return smooth


def up_case(rep, f, conv, key, r, c, p, q, u, v):
    prog = rep.prog
    h, w = add(add(u, u), ONE), add(add(v, v), ONE)
    m, k = matrix(prog, r, c, A), matrix(prog, h, w, B)

    run = Run(prog, {conv['p']: smooth_contract(prog)})
    got = run.call(f, [run.cell(m), run.cell(seqe((p, q))), run.cell(k)])
    rep.note_run(run)
    got = got if got is not None else top('never returns')
    up = upsampled(r, c, p, q, A)
    H, W = add(mul(r, p), add(u, u)), add(mul(c, q), add(v, v))
    padded = pad_elem(mul(c, q), u, v, mul(r, p), up)
    rule = 'elements at block centres, smoothed without changing the shape'
    if interp.find_op(got, 'obj'):
        # the smoothing is one call of the convolution (decided by C10) on the padded up-sampled matrix
        rep.never_panics(key + '/no-panic', run, sampler=s)
        rep.equal(key, run, got, ok(mk('obj', 'conv', (matrix(prog, H, W, padded), k), None)), sampler=s, rule=rule)
        return
    run = Run(prog)
    got = run.call(f, [run.cell(m), run.cell(seqe((p, q))), run.cell(k)])
    rep.note_run(run)
    got = got if got is not None else top('never returns')
    rep.never_panics(key + '/no-panic', run, sampler=small)
    rep.equal(key, run, got, ok(conv_spec(prog, H, W, h, w, padded, B)), sampler=small, rule=rule)


def small(i):
    return {'maxdim': 1 + i % 2}


def upsampled(r, c, p, q, A):
    """Element of the up-sampled matrix before smoothing."""
    ui, uj = T.f_div(sub(p, ONE), const(2)), T.f_div(sub(q, ONE), const(2))

    def el(k):
        i, j = T.f_divmod(k, mul(c, q))
        (bi, a), (bj, b) = T.f_divmod(i, p), T.f_divmod(j, q)
        return ite(band(cmp_eq(a, ui), cmp_eq(b, uj)), A(add(mul(bi, c), bj)), ZERO)
    return el
