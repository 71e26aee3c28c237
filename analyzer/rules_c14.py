from nets import *
from rules_c02 import guarded


def check(rep):
    guarded(rep, empty, rep)
    for i in range(4):
        guarded(rep, shapes, rep, i)
        guarded(rep, add_input, rep, i)
        guarded(rep, add_first, rep, i)
        for j in range(4):
            guarded(rep, add_next, rep, i, j)
    guarded(rep, count, rep)


def layer(prog, i, tag):
    """(layer, input shape, output shape, initialised, domain, parameters) of a layer of the i-th kind."""
    v = lambda x: sym(x + tag)
    n, m, p, q, r, c = v('n'), v('m'), v('p'), v('q'), v('r'), v('c')
    Sc = lambda x: enum(prog, 'IOShape', 'Scalar', x)
    Ma = lambda x: enum(prog, 'IOShape', 'Matrix', x)
    kind = KINDS[i][0]
    if i == 0:
        t = dense(prog, n, m), Sc(m), Sc(n), bnot(cmp_eq(n, ZERO)), TRUE, add(mul(n, m), n)
    elif i == 1:
        both = band(cmp_eq(n, ZERO), cmp_eq(m, ZERO))
        # a layer with channels but no filters, or the reverse, may count as either
        dom = bor(both, band(bnot(cmp_eq(n, ZERO)), bnot(cmp_eq(m, ZERO))))
        t = conv(prog, n, m, p, q), Ma(m), Ma(n), bnot(both), dom, add(mul(mul(n, m), mul(p, q)), n)
    elif i == 2:
        t = reduce_(prog, n, p, q, r, c), Ma(n), Ma(n), TRUE, TRUE, ZERO
    else:
        t = flatten(prog, r, c, n), Ma(n), Sc(mul(mul(r, c), n)), TRUE, TRUE, ZERO
    return (wrap(prog, kind, t[0]),) + t[1:]


def same_shape(a, b):
    return FALSE if a.a[1] != b.a[1] else cmp_eq(a.a[2][0], b.a[2][0])


def empty(rep):
    prog = rep.prog
    run = Run(prog)
    got = call(rep, run, inherent(prog, 'CNetwork', 'new'), [])
    rep.equal('new', run, got, net(prog, seqe(())), rule='a new network has no layers')
    for name in ('get_input_shape', 'get_output_shape'):
        run = Run(prog)
        got = call(rep, run, inherent(prog, 'CNetwork', name), [run.cell(net(prog, seqe(())))])
        rep.equal('%s/empty' % name, run, got, err(), rule='shapes of an empty network are an error')
        rep.never_panics('%s/empty/no-panic' % name, run)


def shapes(rep, i):
    prog = rep.prog
    n = sym('N')
    lay, ins, out = layer(prog, i, '')[:3]
    rest = seql(n, L(prog))
    for name, seq, want in (('get_input_shape', T.seq_cat(seqe((lay,)), rest), ins),
                            ('get_output_shape', T.seq_cat(rest, seqe((lay,))), out)):
        run = Run(prog)
        got = call(rep, run, inherent(prog, 'CNetwork', name), [run.cell(net(prog, seq))])
        key = '%s/%s' % (name, KINDS[i][0])
        rep.equal(key, run, opaque(got), ok(want), sampler=s, rule='shape of the first and last layer')
        rep.never_panics(key + '/no-panic', run, sampler=s)


def addition(rep, key, name, old, lay, accept, dom):
    prog = rep.prog
    run = Run(prog)
    cell = run.cell(net(prog, old))
    got = call(rep, run, inherent(prog, 'CNetwork', name), [cell, lay])
    rep.never_panics(key + '/no-panic', run, sampler=s, dom=dom)
    rep.equal(key + '/accepts', run, opaque(run.variant(got, 0)), accept, dom=dom, sampler=s,
              rule='accepted exactly when the layer fits')
    want = ite(accept, net(prog, T.seq_cat(old, seqe((lay,)))), net(prog, old)) if accept is not FALSE else net(prog, old)
    rep.equal(key + '/layers', run, opaque(run.get(cell)), want, dom=dom, sampler=s,
              rule='an accepted layer is appended, a rejected one changes nothing')


def add_input(rep, i):
    prog = rep.prog
    n = sym('N')
    lay, ins, out, init, dom, par = layer(prog, i, '')
    addition(rep, 'add_input/%s/first' % KINDS[i][0], 'add_input', seqe(()), lay, init, dom)
    addition(rep, 'add_input/%s/later' % KINDS[i][0], 'add_input', seql(add(n, ONE), L(prog)), lay, FALSE, dom)


def add_first(rep, i):
    lay, ins, out, init, dom, par = layer(rep.prog, i, '')
    addition(rep, 'add/%s/empty' % KINDS[i][0], 'add', seqe(()), lay, FALSE, dom)


def add_next(rep, i, j):
    prog = rep.prog
    last, new = layer(prog, i, '1'), layer(prog, j, '2')
    old = T.seq_cat(seql(sym('N'), L(prog)), seqe((last[0],)))
    addition(rep, 'add/%s-%s' % (KINDS[i][0], KINDS[j][0]), 'add', old, new[0], band(new[3], same_shape(last[2], new[1])),
             new[4])


def count(rep):
    prog = rep.prog
    f = inherent(prog, 'CNetwork', 'params_len')
    one = [layer(prog, i, str(i)) for i in range(4)]
    for tag, seq in (('empty', ()), ('dense', (0,)), ('conv-reduce', (1, 2)), ('all', (1, 2, 3, 0))):
        run = Run(prog)
        cell = run.cell(net(prog, seqe(tuple(one[i][0] for i in seq))))
        got = call(rep, run, f, [cell])
        rep.equal('params_len/' + tag, run, got, add(ZERO, ZERO, *[one[i][5] for i in seq]), sampler=s,
                  rule='sum over all layers')
    # any number of layers of a kind, each with its own sizes
    n = sym('N')
    a, b = (lambda i: app('a', i, sort='i')), (lambda i: app('b', i, sort='i'))
    run = Run(prog)
    cell = run.cell(net(prog, seql(n, lambda i: wrap(prog, 'Dense', dense(prog, a(i), b(i))))))
    got = call(rep, run, f, [cell])
    rep.equal('params_len/many', run, got, T.sume(n, lambda i: add(mul(a(i), b(i)), a(i))), sampler=s,
              rule='sum over all layers')
    rep.never_panics('params_len/many/no-panic', run, sampler=s)
    rep.equal('params_len/unchanged', run, run.get(cell), net(prog, seql(n, lambda i: wrap(prog, 'Dense', dense(prog, a(i), b(i))))),
              sampler=s, rule='inspection does not modify the network')
