from mats import *
from rules_c02 import guarded
from rules_c07 import inv


def s(i):
    return {'maxdim': 1 + i % 4}


def el(name):
    return lambda q: app(name, q, sort='c')


K = app('K', sort='c')


def check(rep):
    for n in ('add_slice', 'mul_slice'):
        guarded(rep, pair_slice, rep, n)
    for n in ('add_slice_mut', 'mul_slice_mut'):
        guarded(rep, pair_slice_mut, rep, n)
    for n in ('mul_mut_scalar', 'div_mut_scalar'):
        guarded(rep, slice_scalar, rep, n)
    guarded(rep, scalar_prod, rep)
    for n in ('mul_vec', 'mul_slice'):
        guarded(rep, mat_vec, rep, n)
    for n in ('add_mut_scalar', 'mul_mut_scalar', 'div_mut_scalar'):
        guarded(rep, mat_scalar, rep, n)
    guarded(rep, add_mut, rep)


def op(name):
    return {'add': add, 'mul': mul, 'div': div}[name.split('_')[0]]


def begin(rep, f, args, pre=()):
    run = Run(rep.prog)
    a = [run.cell(x) if isseq(x) or x.op == 'adt' else x for x in args]
    got = run.call(f, a, pre=pre)
    rep.note_run(run)
    return run, a, got if got is not None else top('never returns')


def slice_fn(rep, name):
    return trait_fn(rep.prog, 'SliceOps', name, 'slice')


def unchanged(rep, key, run, ref, old, pre=()):
    rep.equal(key, run, run.get(ref), old, pre=pre, sampler=s, rule='operand is not modified')


def pair_slice(rep, name):
    f = slice_fn(rep, name)
    n, m = sym('n'), sym('m')
    a, b = seql(n, el('A')), seql(m, el('B'))
    run, (ra, rb), got = begin(rep, f, [a, b])
    key = 'slice/' + name
    rep.never_panics(key + '/no-panic', run, sampler=s)
    o = op(name)
    want = seql(n, lambda q: o(app('A', q, sort='c'), app('B', q, sort='c')))
    res = ite(cmp_eq(n, m), ok(want), err())
    if name == 'add_slice':
        res = ite(cmp_eq(n, ZERO), ok(b), res)
    rep.equal(key, run, got, res, sampler=s, rule='element-wise result, error for different lengths')
    unchanged(rep, key + '/lhs', run, ra, a)
    unchanged(rep, key + '/rhs', run, rb, b)


def pair_slice_mut(rep, name):
    f = slice_fn(rep, name)
    n, m = sym('n'), sym('m')
    a, b = seql(n, el('A')), seql(m, el('B'))
    run, (ra, rb), got = begin(rep, f, [a, b])
    key = 'slice/' + name
    rep.never_panics(key + '/no-panic', run, sampler=s)
    o = op(name)
    rep.equal(key + '/accepts', run, run.variant(got, 0), cmp_eq(n, m), sampler=s, rule='error for different lengths')
    want = seql(n, lambda q: ite(cmp_eq(n, m), o(app('A', q, sort='c'), app('B', q, sort='c')), app('A', q, sort='c')))
    rep.equal(key, run, run.get(ra), want, sampler=s, rule='element-wise result in place, nothing changed on error')
    unchanged(rep, key + '/rhs', run, rb, b)


def slice_scalar(rep, name):
    f = slice_fn(rep, name)
    n = sym('n')
    a = seql(n, el('A'))
    run, (ra, _), got = begin(rep, f, [a, K])
    key = 'slice/' + name
    pre = [] if name[:3] == 'mul' else [bnot(cmp_eq(K, ZERO))]
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=s)
    rep.equal(key + '/accepts', run, run.variant(got, 0), TRUE, pre=pre, sampler=s, rule='succeeds')
    o = op(name)
    rep.equal(key, run, run.get(ra), seql(n, lambda q: o(app('A', q, sort='c'), K)), pre=pre, sampler=s,
              rule='every element scaled once')


def scalar_prod(rep):
    f = slice_fn(rep, 'scalar_prod')
    n = sym('n')
    a, b = seql(n, el('A')), seql(n, el('B'))
    run, (ra, rb), got = begin(rep, f, [a, b])
    rep.never_panics('slice/scalar_prod/no-panic', run, sampler=s)
    rep.equal('slice/scalar_prod', run, got, T.sume(n, lambda q: mul(app('A', q, sort='c'), app('B', q, sort='c'))),
              sampler=s, rule='sum of products')
    unchanged(rep, 'slice/scalar_prod/lhs', run, ra, a)


def mat_vec(rep, name):
    f = inherent(rep.prog, 'Matrix', name)
    r, c, n = sym('r'), sym('c', True), sym('n')
    m, v = matrix(rep.prog, r, c, el('A')), seql(n, el('B'))
    run = Run(rep.prog)
    rm = run.cell(m)
    got = run.call(f, [rm, v if name == 'mul_vec' else run.cell(v)])
    rep.note_run(run)
    got = got if got is not None else top('never returns')
    key = 'matrix/' + name
    rep.never_panics(key + '/no-panic', run, sampler=s)
    want = seql(r, lambda i: T.sume(c, lambda j: mul(app('A', add(mul(i, c), j), sort='c'), app('B', j, sort='c'))))
    rep.equal(key, run, got, ite(cmp_eq(c, n), ok(want), err()), sampler=s,
              rule='matrix-vector product, error for a vector of the wrong length')
    unchanged(rep, key + '/lhs', run, rm, m)


def mat_scalar(rep, name):
    f = inherent(rep.prog, 'Matrix', name)
    r, c = sym('r'), sym('c')
    cap = (sym('R'), sym('C'))
    m = matrix(rep.prog, r, c, el('A'), cap=cap)
    run, (rm, _), got = begin(rep, f, [m, K])
    key = 'matrix/' + name
    pre = [] if name[:3] != 'div' else [bnot(cmp_eq(K, ZERO))]
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=s)
    rep.equal(key + '/accepts', run, run.variant(got, 0), TRUE, pre=pre, sampler=s, rule='succeeds')
    o = op(name)
    rep.equal(key, run, run.get(rm), matrix(rep.prog, r, c, lambda q: o(app('A', q, sort='c'), K), cap=cap), pre=pre,
              sampler=s, rule='every element changed once')


def add_mut(rep):
    prog = rep.prog
    f = inherent(prog, 'Matrix', 'add_mut')
    r, c, p, q = sym('r', True), sym('c', True), sym('p', True), sym('q', True)
    R, C, P, Q = sym('R'), sym('C'), sym('P'), sym('Q')
    pre = [cmp_ge(sub(R, r)), cmp_ge(sub(C, c)), cmp_ge(sub(P, p)), cmp_ge(sub(Q, q))]
    a, b = matrix(prog, r, c, el('A'), cap=(R, C)), matrix(prog, p, q, el('B'), cap=(P, Q))
    run, (ra, rb), got = begin(rep, f, [a, b], pre)
    key = 'matrix/add_mut'
    same = band(cmp_eq(r, p), cmp_eq(c, q))
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=s)
    rep.equal(key + '/accepts', run, run.variant(got, 0), same, pre=pre, sampler=s, rule='error for different shapes')
    summed = matrix(prog, r, c, lambda k: add(app('A', k, sort='c'), app('B', k, sort='c')), cap=(R, C))
    rep.equal(key, run, run.get(ra), summed, pre=pre, dom=same, sampler=s, rule='element-wise sum in place')
    rep.equal(key + '/unchanged', run, run.get(ra), a, pre=pre, dom=bnot(same), sampler=s, rule='nothing changed on error')
    unchanged(rep, key + '/rhs', run, rb, b, pre)
    e = matrix(prog, ZERO, ZERO, seqe(()))
    pre = [cmp_ge(sub(P, p)), cmp_ge(sub(Q, q))]
    run, (ra, rb), got = begin(rep, f, [e, b], pre)
    rep.never_panics(key + '/empty/no-panic', run, pre=pre, sampler=s)
    rep.equal(key + '/empty/accepts', run, run.variant(got, 0), TRUE, pre=pre, sampler=s, rule='succeeds')
    for fld in ('body', 'shape'):
        rep.equal(key + '/empty/' + fld, run, field(prog, run.get(ra), fld), field(prog, b, fld), pre=pre, sampler=s,
                  rule='empty matrix plus operand is the operand')
    rep.holds(key + '/empty/invariant', run, inv(prog, run.get(ra)), pre=pre, sampler=s, rule='shape within capacity')
    pre = [cmp_ge(sub(R, r)), cmp_ge(sub(C, c))]
    run, (ra, rb), got = begin(rep, f, [a, e], pre)
    rep.never_panics(key + '/rhs-empty/no-panic', run, pre=pre, sampler=s)
    rep.equal(key + '/rhs-empty', run, run.get(ra), a, pre=pre, sampler=s, rule='adding an empty matrix changes nothing')
