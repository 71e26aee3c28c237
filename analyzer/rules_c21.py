from spec import *
from rules_c01 import cplx, PREC, run0
from rules_c02 import guarded
from rules_c20 import step, M, SEEDS, ZERO_SEED
import evalt

METHODS = (('Uniform', 'gen'), ('XavierGlorotU', 'gen_xagu'), ('XavierGlorotN', 'gen_xagn'), ('Xavier', 'gen_xa'),
           ('HeInit', 'gen_he'))


def sampler(i):
    return {'fixed': {'seed': (SEEDS + [5 * k * k + 77 for k in range(40)])[(i * 7) % 59]}, 'ranges': {'units': (1, 60)}}


def check(rep):
    for ty, _ in PREC:
        for _, m in METHODS:
            guarded(rep, method, rep, ty, m)
    guarded(rep, dispatch, rep)


def method(rep, ty, m):
    prog = rep.prog
    f = trait_fn(prog, 'Complex', m, ty)
    path = cplx(prog, ty, 'z')[0].a[0]
    s, n = app('seed', sort='i'), app('units', sort='i')
    pre = [cmp_ge(sub(const(2 ** 128 - 1), s)), cmp_ge(sub(n, ONE))]
    run = Run(prog)
    cell = run.cell(s)
    got = run.call(f, [cell, n], pre=pre)
    rep.note_run(run)
    key = '%s::%s' % (ty, m)
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=sampler)
    if got is None:
        got = top('never returns')
    s1 = step(s)
    s2 = step(s1)
    s3 = step(s2)
    u = lambda x: div(x, M)
    tau = mul(const(2), app('pi'))
    if m in ('gen', 'gen_xa', 'gen_xagu'):
        S = {'gen': n, 'gen_xa': T.f_sqrt(div(const(12), n)), 'gen_xagu': T.f_sqrt(div(const(6), n))}[m]
        phi = mul(tau, u(s2))
        laws = [mul(S, u(s1)), sub(mul(const(2), mul(S, u(s1))), S)]
        last = s2
    else:
        S = T.f_sqrt(div(const(2), n))
        U = nite(cmp_ge(sub(u(s1), app('tiny')), 'r'), u(s1), app('tiny'))
        phi = mul(tau, u(s3))
        laws = [mul(mul(T.f_sqrt(mul(const(-2), T.f_ln(U))), T.f_cos(mul(tau, u(s2)))), S)]
        last = s3
    wants = [adt(path, 0, mul(r, T.f_cos(phi)), mul(r, T.f_sin(phi))) for r in laws]
    # the modulus may be drawn on either side of zero; any one law must match
    probe = Report(rep.prop, prog, rep.tier, rep.seed)
    res = [probe.equal('p', run, got, w, pre=pre, sampler=sampler, rule='') for w in wants]
    good = [o for o in res if o['status'] in (PROVED, SAMPLED)]
    und = [o for o in res if o['status'] == UNDECIDED]
    pick_ = (good or und or res)[0]
    rep.add(key + '/law', pick_['status'], f, 'modulus law of the method times an independent uniform phase', pick_['detail'])
    rep.equal(key + '/draws', run, run.get(cell), last, pre=pre, sampler=sampler,
              rule='fixed number of draws advances the seed')
    finite(rep, key, run, f, got)


def finite(rep, key, run, f, got):
    """No division by zero or logarithm of zero, also for the seeds whose draws are 0."""
    inv = pow(1103515245, -1, 2 ** 31 - 1)
    z1 = ZERO_SEED
    z2 = (z1 - 12345) * inv % (2 ** 31 - 1)
    z3 = (z2 - 12345) * inv % (2 ** 31 - 1)
    n = 0
    why = None
    for sd in (z1, z2, z3, 0, 1, 12345, 2 ** 31 - 2, 2 ** 128 - 1):
        for units in (1, 2, 100):
            ev = evalt.Ev(0, rep.prog, fixed={'seed': sd, 'units': units})
            try:
                v = ev(got)
                for c in evalt_parts(v):
                    x = float(c)
                    if x != x or x in (float('inf'), float('-inf')):
                        raise evalt.Undefined('not finite')
                n += 1
            except (evalt.Undefined, OverflowError) as e:
                rep.add(key + '/finite', REFUTED, f, 'finite parts for every seed',
                        'not finite (%s) for seed=%d units=%d' % (e, sd, units))
                return
            except (evalt.EvalTop, evalt.Budget) as e:
                why = str(e)
    if why:
        rep.undecided(key + '/finite', f, 'finite parts for every seed', why)
        return
    # every logarithm and division in the extracted term has a positive argument
    rep.add(key + '/finite', PROVED if safe_logs(got) else SAMPLED, f, 'finite parts for every seed', '%d points' % n)


def evalt_parts(v):
    if isinstance(v, tuple) and v and v[0] == 'adt':
        return list(v[3])
    if isinstance(v, (list, tuple)):
        out = []
        for x in v:
            if isinstance(x, (list, tuple)):
                out += evalt_parts(x)
            elif isinstance(x, (int, float, T.Fraction)) and not isinstance(x, bool):
                out.append(x)
        return out
    return [v]


def safe_logs(t):
    """Every ln is applied to max(_, tiny) or a positive constant."""
    ok = [True]
    seen = set()

    def rec(x):
        if isinstance(x, tuple):
            for y in x:
                rec(y)
            return
        if not isinstance(x, T.Node) or x in seen:
            return
        seen.add(x)
        if x.op == 'app' and x.a[0] == 'ln':
            a = x.a[1][0]
            at = a.a[0][0][0][0] if a.op == 'poly' and len(a.a) == 1 and len(a.a[0][0]) == 1 else None
            tiny = app('tiny')
            if not (at is not None and (at.op == 'app' and at.a[0] == 'max' and tiny in at.a[1] or
                                        at.op == 'nite' and tiny in at.a[1:])):
                ok[0] = False
        for y in x.a:
            rec(y)
    rec(t)
    return ok[0]


def dispatch(rep):
    prog = rep.prog
    f = inherent(prog, 'InitMethod', 'gen')
    p = [q for q in prog.adts if q.split('::')[-1] == 'InitMethod'][0]
    s, n = app('seed', sort='i'), app('units', sort='i')
    names = [v['n'] for v in prog.adts[p]['v']]
    for var, m in METHODS:
        if var not in names:
            rep.missing('InitMethod::%s' % var)
            continue
        run = Run(prog)
        cell = run.cell(s)
        got = run.call(f, [run.cell(adt(p, names.index(var), n)), cell])
        rep.note_run(run)
        key = 'InitMethod::%s' % var
        rep.equal(key, run, got if got is not None else top('never returns'), app('rnd:' + m, s, n, sort='c'),
                  rule='option selects its own sampler with the given count')
        rep.equal(key + '/seed', run, run.get(cell), app('seed:' + m, s, n, sort='i'), rule='seed advanced by one sample')
