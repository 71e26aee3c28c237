from spec import *
from rules_c01 import cplx, PREC, run0


def one(rep, ty, key, f, args, want, dom=TRUE, rule='', refs=False, sampler=None):
    run = Run(rep.prog)
    cells = []
    if refs:
        cells = [run.cell(a) for a in args]
        got = run.call(f, cells)
    else:
        got = run.call(f, args)
    rep.note_run(run)
    if got is None:
        got = top('never returns')
    rep.equal(key, run, got, want, dom=dom, rule=rule, sampler=sampler)
    rep.never_panics(key + '/no-panic', run, dom=dom)
    return got


def guarded(rep, fn, *a):
    try:
        return fn(*a)
    except Missing as e:
        rep.missing(str(e))
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        rep.broken('%s%s' % (fn.__name__, [x for x in a if isinstance(x, str)] or ''), e)


def check(rep):
    for ty, fl in PREC:
        guarded(rep, accessors, rep, ty, fl)
        guarded(rep, ordering, rep, ty)


def accessors(rep, ty, fl):
    prog = rep.prog
    z, x, y = cplx(prog, ty, 'z')
    path = z.a[0]
    a, p = app('a'), app('p')
    n = app('n', sort='i')

    def c(u, v):
        return adt(path, 0, u, v)
    n2 = add(mul(x, x), mul(y, y))
    cases = [
        ('new', False, [a, p], c(a, p), 'cartesian construction'),
        ('newe', False, [a, p], c(mul(a, T.f_cos(p)), mul(a, T.f_sin(p))), 'polar construction'),
        ('usize_to_complex', False, [n], c(n, ZERO), 'count as a real number'),
        ('unit', False, [], c(ONE, ZERO), 'one'),
        ('iunit', False, [], c(ZERO, ONE), 'imaginary unit'),
        ('re', True, [z], x, 'real part'),
        ('im', True, [z], y, 'imaginary part'),
        ('norm', True, [z], T.f_sqrt(n2), 'modulus'),
        ('norm_sq', True, [z], n2, 'squared modulus'),
        ('phase', True, [z], app('atan2', y, x), 'four-quadrant phase'),
        ('conj', True, [z], c(x, neg(y)), 'conjugate'),
    ]
    for name, refs, args, want, rule in cases:
        try:
            f = trait_fn(prog, 'Complex', name, ty)
        except Missing as e:
            rep.missing(str(e))
            continue
        one(rep, ty, '%s::%s' % (ty, name), f, args, want, rule=rule, refs=refs)
    f = trait_fn(prog, 'Default', 'default', ty)
    one(rep, ty, '%s::default' % ty, f, [], c(ZERO, ZERO), rule='default is zero')
    for nm, args, want in (('unit', [], ONE), ('usize_to_real', [n], n)):
        f = trait_fn(prog, 'Real', nm, fl)
        one(rep, ty, '%s::%s' % (fl, nm), f, args, want, rule='real %s' % nm)


def ordering(rep, ty):
    prog = rep.prog
    u, a, b = cplx(prog, ty, 'u')
    v, c, d = cplx(prog, ty, 'v')
    nu, nv = add(mul(a, a), mul(b, b)), add(mul(c, c), mul(d, d))
    df = sub(nu, nv)
    from stdmodel import ORD as ORDERING
    lt, eq, gt = (adt(ORDERING, i) for i in range(3))
    wants = {
        'lt': cmp_gt(neg(df), 'r'), 'le': cmp_ge(neg(df), 'r'), 'gt': cmp_gt(df, 'r'), 'ge': cmp_ge(df, 'r'),
        'partial_cmp': some(ite(cmp_gt(neg(df), 'r'), lt, ite(cmp_gt(df, 'r'), gt, eq))),
    }
    have = 0
    for m, want in wants.items():
        try:
            f = trait_fn(prog, 'PartialOrd', m, ty)
        except Missing:
            if m == 'partial_cmp':
                raise
            continue        # provided method: defined through partial_cmp
        have += 1
        one(rep, ty, '%s::%s' % (ty, m), f, [u, v], want, rule='order by modulus', refs=True,
            sampler=lambda i: {'pool': (0, 1, -1) if i % 2 else (0, 1, -1, 2, 3, 0.5)})
    f = trait_fn(prog, 'PartialEq', 'eq', ty)
    one(rep, ty, '%s::eq' % ty, f, [u, v], band(cmp_eq(a, c, 'r'), cmp_eq(b, d, 'r')), rule='equality is componentwise',
        refs=True, sampler=lambda i: {'pool': (0, 1, -1, 2)})
