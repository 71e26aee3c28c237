from acts import *

HALF = const(T.Fraction(1, 2))


def smooth(opt, ty, x, y):
    """Points where the option is differentiable and not saturated."""
    nx, ny = bnot(cmp_eq(x, ZERO, 'r')), bnot(cmp_eq(y, ZERO, 'r'))
    if opt in ('RITReLU', 'ZReLU'):
        return band(nx, ny)
    if opt == 'RITSigmoid':
        lim = 10 if ty == 'Cf32' else 20
        return band(bounded(x, lim), bounded(y, lim))
    if opt == 'ModZ':
        return bor(nx, ny)
    if opt == 'Cardioid':
        # the phase jumps on the negative real axis but its cosine and sine do not
        return bor(nx, ny)
    return TRUE


def check(rep):
    prog = rep.prog
    x, y = app('z.x'), app('z.y')
    xa, ya = x.a[0][0][0][0], y.a[0][0][0][0]
    for ty, _ in PREC:
        path = cplx(prog, ty, 'z')[0].a[0]
        for opt in options(prog):
            if opt not in OPTIONS:
                rep.undecided('%s/%s' % (ty, opt), None, 'option known', 'no definition for a new option')
                continue
            try:
                run, f = extract(rep, ty, opt, '', x, y, path)
                dom = smooth(opt, ty, x, y)
                with assume(dom):
                    f = T.resimplify(f)
                if f.op != 'adt' or len(f.a[2]) != 2:
                    f2 = split_ite(f, path)
                    if f2 is None:
                        rep.undecided('%s/%s' % (ty, opt), run.fn, 'activation extracted', 'no closed form')
                        continue
                    f = f2
                u, v = f.a[2]
                ux, uy, vx, vy = T.diff(u, xa), T.diff(u, ya), T.diff(v, xa), T.diff(v, ya)
            except Missing as e:
                rep.missing(str(e))
                continue
            except (T.NotNum, NotImplementedError) as e:
                rep.undecided('%s/%s' % (ty, opt), run.fn, 'activation differentiated', str(e))
                continue
            wants = {
                '_d': adt(path, 0, mul(HALF, add(ux, vy)), mul(HALF, sub(vx, uy))),
                '_d_conj': adt(path, 0, mul(HALF, sub(ux, vy)), mul(HALF, add(vx, uy))),
            }
            for kind in ('_d', '_d_conj'):
                try:
                    r, got = extract(rep, ty, opt, kind, x, y, path)
                except Missing as e:
                    rep.missing(str(e))
                    continue
                key = '%s/%s/%s' % (ty, opt, kind.strip('_'))
                got = split_ite(got, path) or got
                rep.equal(key, r, got, wants[kind], dom=dom,
                          rule='derivative equals the Wirtinger derivative of the extracted activation')
                rep.never_panics(key + '/no-panic', r, dom=dom)


def split_ite(v, path):
    """Push a conditional between complex values into the components."""
    if v.op == 'adt':
        return v
    if v.op == 'ite':
        a, b = split_ite(v.a[1], path), split_ite(v.a[2], path)
        if a is None or b is None or a.op != 'adt' or b.op != 'adt':
            return None
        return adt(path, 0, *[nite(v.a[0], p, q) for p, q in zip(a.a[2], b.a[2])])
    return None
