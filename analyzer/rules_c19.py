import effects
from layers import *
from rules_c02 import guarded

EXPLANATION = ('Abstract interpretation of every adjustment over the term domain (update, order, count, all-or-nothing), and an '
               'ownership analysis of the whole library: every public function on layers and networks other than training takes '
               'no exclusive access to them, no type hides interior mutability and no unsafe code writes through pointers, so '
               'the type system excludes writes. ') + EXPLANATION
HOLDERS = ('CNetwork', 'CLayer', 'DenseCLayer', 'ConvCLayer', 'Reduce', 'Flatten')
# calls that train or build
MUTATORS = ('neg_conj_adjustment', 'gradient_opt', 'mvn_opt', 'add', 'add_input')


def small(i):
    return {'maxdim': 1 + i % 2}


def check(rep):
    adjustments(rep)
    guarded(rep, read_only, rep)


def read_only(rep):
    import rules_c22
    prog = rep.prog
    rules_c22.fixture(rep)
    for fn in prog.order:
        if fn['kind'] == 'Closure' or fn['vis'] != 'Public':
            continue
        b = fn['body']
        ins = b['locals'][1:1 + b['argc']]
        held = [i for i, t in enumerate(ins) if effects.mentions(t, lambda p: p.split('::')[-1] in HOLDERS)]
        if not held or fn['name'] in MUTATORS:
            continue
        excl = [i for i in held if exclusive(ins[i])]
        rep.fns.add(fn['dp'])
        rep.fact('read-only/%s' % fn['p'].replace(' ', ''), not any(writes(b, i + 1) for i in excl), fn,
                 'no exclusive access to a layer or network is used', 'writes through argument %s' % excl)
    for p, a in sorted(prog.adts.items()):
        w = effects.interior(a['v'])
        rep.fact('frozen/%s' % p, not w, None, 'no interior mutability', 'contains %s at %s' % (w, a['at']))
    us = effects.unsafe_uses(prog)
    for fn, what, at, sure in us:
        rep.add('unsafe/%s' % fn['p'], REFUTED if sure else UNDECIDED, fn, 'no unsafe writes', '%s at %s' % (what, at), at)
    rep.fact('no unsafe writes', not any(u[3] for u in us), None, 'no unsafe writes', '')


def exclusive(ty):
    """The type gives exclusive access to a layer or network it does not own."""
    if ty['k'] == 'ref' and ty['m'] and effects.mentions(ty, lambda p: p.split('::')[-1] in HOLDERS):
        return True
    return any(exclusive(t) for v in ty.values() for t in (v if isinstance(v, list) else [v]) if isinstance(t, dict) and 'k' in t)


def writes(body, local):
    """The function assigns through, or passes on, exclusive access to an argument."""
    roots = {local}
    for _ in range(4):
        for b in body['blocks']:
            for st in b['s']:
                if st['k'] != 'assign':
                    continue
                l, r = st['l'], st['r']
                if l[0] in roots and l[1]:
                    return True
                if r['k'] == 'ref' and r['p'][0] in roots and r['m'] and any(e[0] == 'f' for e in r['p'][1]):
                    return True
                src = r['o']['p'] if r['k'] == 'use' and 'p' in r['o'] else r['p'] if r['k'] == 'ref' and r['m'] else None
                if src is not None and src[0] in roots and not l[1] and exclusive(body['locals'][l[0]]):
                    roots.add(l[0])
            t = b['t']
            if t['k'] == 'call':
                if any('p' in a and a['p'][0] in roots and not a['p'][1] for a in t['a']) or t['d'][0] in roots and t['d'][1]:
                    return True
    return False


def adjustments(rep, prefix=''):
    for via in ('own', 'CLayer'):
        guarded(rep, dense_adjust, rep, prefix, via)
        guarded(rep, conv_adjust, rep, prefix, via)
        guarded(rep, reduce_adjust, rep, prefix, via)


def run_adjust(rep, kind, via, layer, dw, db, pre):
    prog = rep.prog
    f = inherent(prog, 'CLayer' if via == 'CLayer' else dict(KINDS)[kind], 'neg_conj_adjustment')
    run = Run(prog)
    cl = run.cell(wrap(prog, kind, layer) if via == 'CLayer' else layer)
    got = call(rep, run, f, [cl, dw, db], pre=pre)
    return run, got, run.get(cl)


def step(rep, key, kind, via, layer, new, n, m, pre, smp=s):
    """n weights and m biases."""
    prog = rep.prog
    w = (lambda x: wrap(prog, kind, x)) if via == 'CLayer' else (lambda x: x)
    dw, db = gen_elem('dw'), gen_elem('db')
    run, got, after = run_adjust(rep, kind, via, layer, seql(n, dw), seql(m, db), pre)
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=smp)
    rep.equal(key + '/accepts', run, run.variant(got, 0), TRUE, pre=pre, sampler=smp, rule='a fitting adjustment is accepted')
    rep.equal(key + '/update', run, after, w(new(dw, db)), pre=pre, sampler=smp,
              rule='the conjugate of each entry is subtracted from its parameter once')
    l, k = sym('l'), sym('k')
    for nm, (a, b) in (('weights-misfit', (l, m)), ('biases-misfit', (n, l)), ('both-misfit', (l, k))):
        p = pre + (bnot(cmp_eq(l, n if nm != 'biases-misfit' else m)),)
        if nm == 'both-misfit':
            p += (bnot(cmp_eq(k, m)),)
        run, got, after = run_adjust(rep, kind, via, layer, seql(a, dw), seql(b, db), p)
        rep.never_panics('%s/%s/no-panic' % (key, nm), run, pre=p, sampler=smp)
        rep.equal('%s/%s/error' % (key, nm), run, run.variant(got, 0), FALSE, pre=p, sampler=smp, rule='a misfit is an error')
        rep.equal('%s/%s/unchanged' % (key, nm), run, after, w(layer), pre=p, sampler=smp, rule='no parameter has changed')


def dense_adjust(rep, prefix, via):
    prog = rep.prog
    n, m = sym('n'), sym('m')
    W, b = gen_elem('W'), gen_elem('b')
    new = lambda dw, db: dense(prog, n, m, lambda i: sub(W(i), T.f_conj(dw(i))), lambda i: sub(b(i), T.f_conj(db(i))))
    step(rep, '%sdense/%s' % (prefix, via), 'Dense', via, dense(prog, n, m), new, mul(n, m), n, ())


def conv_adjust(rep, prefix, via):
    prog = rep.prog
    F, C, p, q = sym('F'), sym('C'), sym('p'), sym('q')
    K = lambda f, i: app('K', f, i, sort='c')
    b = gen_elem('b')
    pq = mul(p, q)
    pre = tuple(cmp_ge(sub(v, ONE)) for v in (F, C, p, q))
    new = lambda dw, db: conv(prog, F, C, p, q, lambda f, i: sub(K(f, i), T.f_conj(dw(add(mul(f, pq), i)))),
                              lambda i: sub(b(i), T.f_conj(db(i))))
    step(rep, '%sconv/%s' % (prefix, via), 'Convolutional', via, conv(prog, F, C, p, q), new, mul(mul(F, C), pq), F, pre, small)


def reduce_adjust(rep, prefix, via):
    """A reduce layer has no parameters: an empty adjustment is accepted and changes nothing."""
    prog = rep.prog
    layer = reduce_(prog, sym('C'), sym('p'), sym('q'), sym('u'), sym('v'))
    key = '%sreduce/%s' % (prefix, via)
    run, got, after = run_adjust(rep, 'Reduce', via, layer, seqe(()), seqe(()), ())
    rep.never_panics(key + '/no-panic', run)
    rep.equal(key + '/accepts', run, run.variant(got, 0), TRUE, rule='an empty adjustment is accepted')
    rep.equal(key + '/unchanged', run, after, wrap(prog, 'Reduce', layer) if via == 'CLayer' else layer, rule='nothing changes')
