from acts import *
from rules_c03 import split_ite


def check(rep):
    for ty, _ in PREC:
        for opt in options(rep.prog):
            values(rep, ty, opt)
            for kind, tr in KINDS:
                entry_points(rep, ty, opt, kind, tr)


def values(rep, ty, opt):
    prog = rep.prog
    key = '%s/%s' % (ty, opt)
    if opt not in OPTIONS:
        rep.undecided(key, None, 'option known', 'no definition for a new option')
        return
    x, y = app('z.x'), app('z.y')
    path = cplx(prog, ty, 'z')[0].a[0]
    try:
        run, got = extract(rep, ty, opt, '', x, y, path)
    except Missing as e:
        rep.missing(str(e))
        return
    got = split_ite(got, path) or got
    u, v, dom = definition(opt, x, y)
    if opt == 'RITSigmoid':
        lim = 10 if ty == 'Cf32' else 20
        rep.equal(key, run, got, adt(path, 0, u, v), dom=band(bounded(x, lim), bounded(y, lim)),
                  rule='logistic function of each part away from saturation')
        if got.op == 'adt':
            for i, (g, a) in enumerate(zip(got.a[2], (x, y))):
                inside = band(cmp_gt(g, 'r'), cmp_gt(sub(ONE, g), 'r'))
                nm = 'xy'[i]
                rep.holds('%s/inside-%s' % (key, nm), run, inside, rule='strictly between 0 and 1 for every input',
                          sampler=wide, dom=TRUE)
                hi = bor(bnot(cmp_gt(sub(a, const(lim)), 'r')), cmp_gt(sub(g, const(T.Fraction(999, 1000))), 'r'))
                lo = bor(bnot(cmp_gt(sub(neg(a), const(lim)), 'r')),
                         cmp_gt(sub(const(T.Fraction(1, 1000)), g), 'r'))
                rep.holds('%s/saturation-%s' % (key, nm), run, band(hi, lo), sampler=wide,
                          rule='saturates towards 1 above and 0 below')
    else:
        rep.equal(key, run, got, adt(path, 0, u, v), dom=dom, rule='computes the function of the option')
    rep.never_panics(key + '/no-panic', run, dom=dom)


def wide(i):
    return {'pool': (0, 1, -3, 9, -9, 11, 14, 15, 16, -11, -14, -15, -16, 25, 29, 30, 31, -25, -29, -30, -31, 45, -45, 700,
                     -700)}


def entry_points(rep, ty, opt, kind, tr):
    """Single value, function handle, slice and trait entry points agree."""
    prog = rep.prog
    n = app('n', sort='i')
    kv = fresh('k', n)
    x, y = app('v.x', atom(kv)), app('v.y', atom(kv))
    path = cplx(prog, ty, 'z')[0].a[0]
    z = adt(path, 0, x, y)
    key = '%s/%s/%s' % (ty, opt, tr)
    sfx = suffix(ty)
    try:
        func = option(prog, opt)
        ref, base = extract(rep, ty, opt, kind, x, y, path)
        base_panic = ref.panic_cond()
        rel = {'': 'release_func', '_d': 'release_dfunc', '_d_conj': 'release_dfunc_conj'}[kind]
        # handle
        f = inherent(prog, 'ComplexActFunc', '%s_%s' % (rel, sfx))
        run = Run(prog)
        h = run.call(f, [run.cell(func)])
        got = top('no handle')
        if h is not None and not run.failed:
            run.I.panics = []
            try:
                got = run.I.call_value(run.st, h, [z], None, 'handle')
            except Unsupported as e:
                got = top(str(e))
            run.panics = run.I.panics
            if got is None:
                got = top('never returns')
        rep.note_run(run)
        same(rep, key + '/handle', run, f, got, base, base_panic)
        # trait, single value
        f = trait_fn(prog, 'Complex', tr, ty)
        run = Run(prog)
        got = run.call(f, [run.cell(z), run.cell(func)])
        rep.note_run(run)
        same(rep, key + '/trait', run, f, got, base, base_panic)
        # slices: a named cell of symbolic length
        for what, f in (('slice', inherent(prog, 'ComplexActFunc', 'compute%s_%s' % (kind, sfx))),
                        ('trait-slice', trait_fn(prog, 'Complex', tr + '_mut', ty))):
            run = Run(prog)
            body = seql(n, lambda i: adt(path, 0, app('v.x', i), app('v.y', i)))
            cell = run.cell(body)
            args = [run.cell(func), cell] if what == 'slice' else [cell, run.cell(func)]
            run.call(f, args)
            rep.note_run(run)
            got = run.get(cell)
            env = lambda t, i: subst(t, {kv.a[0]: i})
            want = seql(n, lambda i: env(base, i))
            some_panic = T.exists(n, lambda i: env(base_panic, i)) if base_panic is not FALSE else FALSE
            same(rep, key + '/' + what, run, f, got, want, some_panic)
    except Missing as e:
        rep.missing(str(e))


def same(rep, key, run, f, got, want, panic):
    if got is None:
        got = top('never returns')
    rep.equal(key, run, got, want, dom=bnot(panic), rule='entry points agree', fn=f)
    rep.never_panics(key + '/no-panic', run, dom=bnot(panic), rule='entry point panics only where the single value does',
                     fn=f)
