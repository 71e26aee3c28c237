from nets import *
from rules_c02 import guarded


def ties(i):
    return {'maxdim': 1 + i % 3, 'pool': (0, 1, -1) if i % 2 else None}


def check(rep):
    guarded(rep, loss, rep)
    guarded(rep, accuracy, rep)
    guarded(rep, deep, rep)


def points(prog, B, target):
    """Data set of B points with opaque inputs."""
    ty = tykey(io_ty(prog))
    return struct(prog, 'Dataset', inputs=seql(B, lambda i: mk('obj', 'X', (i,), ty)), target=seql(B, target))


def prediction(prog, n, i):
    return outputs(prog, L(prog), mk('obj', 'X', (i,), tykey(io_ty(prog))))(n)


def loss(rep):
    prog = rep.prog
    n, B = add(sym('n'), ONE), add(sym('B'), ONE)
    ty = tykey(io_ty(prog))
    target = lambda i: mk('obj', 'Y', (i,), ty)
    func = mk('obj', 'lossf', (), tykey({'k': 'adt', 'p': adt_path(prog, 'ComplexLossFunc'), 'a': []}))
    value = lambda t, y, f: app('loss', t, y, f, sort='r')
    cs = forward_contract(prog)
    cs['math::Complex::loss'] = lambda I, st, a, c, at: ok(value(*[I.content(st, x) for x in a]))
    run = Run(prog, contracts=cs)
    data = points(prog, B, target)
    cells = [run.cell(net(prog, seql(n, L(prog)))), run.cell(data)]
    got = call(rep, run, inherent(prog, 'CNetwork', 'loss'), cells + [run.cell(func)])
    rep.never_panics('loss/no-panic', run, sampler=s)
    mean = div(T.sume(B, lambda i: value(target(i), prediction(prog, n, i), func)), B)
    rep.equal('loss', run, opaque(got), ok(mean), sampler=s, rule='mean of the loss of every point')


def strongest(m, x):
    """First index of the largest modulus."""
    i, j = fresh('t', m), fresh('t', m)
    return T.first(m, bnot(T.exists(m, T.gt_ring(x(atom(j)), x(atom(i))), var=j)), i)


def deep(rep):
    """Two layers: the prediction is the output of the second one on that of the first."""
    prog = rep.prog
    B, m = add(sym('B'), ONE), add(sym('m'), ONE)
    ty = tykey(io_ty(prog))
    first, second = L(prog)(ZERO), L(prog)(ONE)
    hidden = lambda inp: mk('obj', 'hidden', (inp,), ty)
    x = lambda inp: (lambda i: app('p', inp, i, sort='c'))
    y = lambda k: (lambda i: app('t', k, i, sort='c'))
    vec = lambda v: enum(prog, 'IOType', 'Scalar', v)

    def forward(I, st, a, c, at):
        l, inp = I.content(st, a[0]), I.content(st, a[1])
        if l is first:
            return ok(hidden(inp))
        if l is second:
            return ok(vec(seql(m, x(inp))))
        raise Unsupported('which layer is applied')
    run = Run(prog, contracts={inherent(prog, 'CLayer', 'foward')['p']: forward})
    cells = [run.cell(net(prog, seqe((first, second)))), run.cell(points(prog, B, lambda k: vec(seql(m, y(k)))))]
    got = call(rep, run, inherent(prog, 'CNetwork', 'max_pred_test'), cells)
    rep.never_panics('accuracy/2 layers/no-panic', run, sampler=ties)
    inp = lambda k: hidden(mk('obj', 'X', (k,), ty))
    hit = lambda k: nite(cmp_eq(strongest(m, x(inp(k))), strongest(m, y(k))), ONE, ZERO)
    rep.equal('accuracy/2 layers', run, opaque(got), div(T.sume(B, hit), B), sampler=ties,
              rule='fraction of points whose strongest component has the same index')


def accuracy(rep):
    prog = rep.prog
    n, B, m = add(sym('n'), ONE), add(sym('B'), ONE), add(sym('m'), ONE)
    x = lambda layer, inp: (lambda i: app('p', layer, inp, i, sort='c'))
    y = lambda k: (lambda i: app('t', k, i, sort='c'))
    vec = lambda v: enum(prog, 'IOType', 'Scalar', v)
    f = inherent(prog, 'CNetwork', 'max_pred_test')
    # one layer: its output is a vector of m components
    cs = {inherent(prog, 'CLayer', 'foward')['p']:
          lambda I, st, a, c, at: ok(vec(seql(m, x(I.content(st, a[0]), I.content(st, a[1])))))}
    inp = lambda k: mk('obj', 'X', (k,), tykey(io_ty(prog)))
    run = Run(prog, contracts=cs)
    cells = [run.cell(net(prog, seqe((L(prog)(ZERO),)))), run.cell(points(prog, B, lambda k: vec(seql(m, y(k)))))]
    got = call(rep, run, f, cells)
    rep.never_panics('accuracy/no-panic', run, sampler=ties)
    hit = lambda k: nite(cmp_eq(strongest(m, x(L(prog)(ZERO), inp(k))), strongest(m, y(k))), ONE, ZERO)
    rep.equal('accuracy', run, opaque(got), div(T.sume(B, hit), B), sampler=ties,
              rule='fraction of points whose strongest component has the same index')
