from spec import *
from rules_c01 import run0
from rules_c02 import guarded

A, B, M = const(1103515245), const(12345), const(2 ** 31)
M1 = sub(M, ONE)
SEEDS = [0, 1, 2, 12345, 2 ** 31 - 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 17, 2 ** 64 - 1, 2 ** 97, 2 ** 98 + 3, 2 ** 127 + 9,
         2 ** 128 - 1, 2 ** 128 - 2 ** 31, 987654321, 1942]
# seed whose successor is 0 and seed whose successor is the largest state
ZERO_SEED = (-12345 * pow(1103515245, -1, 2 ** 31 - 1)) % (2 ** 31 - 1)
MAX_SEED = ((2 ** 31 - 2 - 12345) * pow(1103515245, -1, 2 ** 31 - 1)) % (2 ** 31 - 1)
SEEDS += [ZERO_SEED, MAX_SEED, MAX_SEED + (2 ** 31 - 1) * 5]
LIMITS = [1, 2, 3, 10, 255, 2 ** 31 - 1, 2 ** 31, 2 ** 40, 2 ** 64 - 1]


def seeds(i):
    return {'fixed': {'seed': SEEDS[i % len(SEEDS)], 'limit': LIMITS[(i // 3) % len(LIMITS)]},
            'ranges': {'scale': (0, 50)}}


def step(s):
    return T.f_mod(add(mul(A, s), B), M1)


def check(rep):
    for n in ('lcgf32', 'lcgf64', 'lcgi'):
        guarded(rep, uniform, rep, n)
    for fl in ('f32', 'f64'):
        guarded(rep, scaled, rep, fl)


def uniform(rep, name):
    f = free_fn(rep.prog, 'math::random::' + name)
    s = app('seed', sort='i')
    run = Run(rep.prog)
    cell = run.cell(s)
    pre = [cmp_ge(sub(const(2 ** 128 - 1), s))]
    args = [cell]
    lim = app('limit', sort='i')
    if name == 'lcgi':
        args.append(lim)
        pre += [cmp_ge(sub(lim, ONE)), cmp_ge(sub(const(2 ** 64 - 1), lim))]
    got = run.call(f, args, pre=pre)
    rep.note_run(run)
    rep.never_panics(name + '/no-panic', run, pre=pre, sampler=seeds, rule='no overflow or panic for any seed')
    new = run.get(cell)
    rep.equal(name + '/step', run, new, step(s), pre=pre, sampler=seeds,
              rule='seed advances by one step of the congruential recurrence')
    if got is None:
        got = top('never returns')
    if name == 'lcgi':
        rep.holds(name + '/below', run, band(cmp_ge(got), cmp_ge(sub(sub(lim, ONE), got))) if got.op == 'poly' else got,
                  pre=pre, sampler=seeds, rule='index is below the limit')
        rep.equal(name + '/value', run, got, T.f_div(mul(step(s), lim), M1), pre=pre, sampler=seeds,
                  rule='index is the new seed scaled to the limit')
    else:
        rep.equal(name + '/value', run, got, div(step(s), M), pre=pre, sampler=seeds,
                  rule='value is the new seed over the modulus')
        if got.op == 'poly':
            rep.holds(name + '/range', run, band(cmp_ge(got, 'r'), cmp_ge(sub(ONE, got), 'r')), pre=pre, sampler=seeds,
                      rule='value lies between 0 and 1')


def scaled(rep, fl):
    f = trait_fn(rep.prog, 'Real', 'gen', fl)
    s, sc = app('seed', sort='i'), app('scale', sort='i')
    run = Run(rep.prog)
    cell = run.cell(s)
    pre = [cmp_ge(sub(const(2 ** 128 - 1), s))]
    got = run.call(f, [cell, sc], pre=pre)
    rep.note_run(run)
    key = fl + '::gen'
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=seeds)
    if got is None or got.op != 'poly':
        rep.undecided(key, f, 'range', T.show(got)[:100] if got is not None else 'never returns')
        return
    rep.holds(key + '/range', run, band(cmp_ge(add(sc, got), 'r'), cmp_ge(sub(sc, got), 'r')), pre=pre, sampler=seeds,
              rule='value within plus or minus the scale')
    rep.equal(key + '/value', run, got, sub(mul(const(2), mul(sc, div(step(s), M))), sc), pre=pre, sampler=seeds,
              rule='the uniform value stretched to plus or minus the scale')
    rep.equal(key + '/step', run, run.get(cell), step(s), pre=pre, sampler=seeds,
              rule='one draw advances the seed once')
