from layers import *
from rules_c02 import guarded


def check(rep):
    guarded(rep, dense_init, rep)
    guarded(rep, conv_init, rep)
    guarded(rep, others_init, rep)
    for i in range(4):
        for via in ('own', 'CLayer'):
            guarded(rep, reports, rep, i, via)


def gen_contract(prog):
    """Drawing one weight: an uninterpreted value and successor of the seed."""
    f = inherent(prog, 'InitMethod', 'gen')

    def h(I, st, a, c, at):
        s0 = I.read_ref(st, a[1])
        me = I.content(st, a[0])
        if s0.op != 'poly':
            return NotImplemented
        I.write_ref(st, a[1], app('next', me, s0, sort='i'))
        return app('draw', me, s0, sort='c')
    return {f['p']: h}


def method(prog):
    return mk('obj', 'method', (), tykey({'k': 'adt', 'p': adt_path(prog, 'InitMethod'), 'a': []}))


def nth(prog, seed, k):
    return T.iterate(k, seed, lambda x: app('next', method(prog), x, sort='i'))


def dense_init(rep):
    prog = rep.prog
    f = inherent(prog, 'DenseCLayer', 'init')
    m, n, seed = sym('inputs'), sym('units'), sym('seed')
    run = Run(prog, gen_contract(prog))
    cell = run.cell(seed)
    got = call(rep, run, f, [enum(prog, 'IOShape', 'Scalar', m), n, some_act(prog), method(prog), cell])
    rep.never_panics('dense/init/no-panic', run, sampler=s)
    W = lambda k: app('draw', method(prog), nth(prog, seed, k), sort='c')
    rep.equal('dense/init', run, got, ok(dense(prog, n, m, W, lambda i: ZERO)), sampler=s,
              rule='units x inputs weights in drawing order, zero biases, the given activation')
    rep.equal('dense/init/seed', run, run.get(cell), nth(prog, seed, mul(n, m)), sampler=s, rule='one draw per weight')
    run = Run(prog, gen_contract(prog))
    cell = run.cell(seed)
    got = call(rep, run, f, [enum(prog, 'IOShape', 'Matrix', m), n, some_act(prog), method(prog), cell])
    rep.equal('dense/init/kind', run, got, err(), rule='wrong kind of input shape is an error')
    rep.never_panics('dense/init/kind/no-panic', run)


def conv_init(rep):
    prog = rep.prog
    f = inherent(prog, 'ConvCLayer', 'init')
    C, F, p, q, seed = sym('channels'), sym('filters'), sym('p'), sym('q'), sym('seed')
    run = Run(prog, gen_contract(prog))
    cell = run.cell(seed)
    got = call(rep, run, f, [enum(prog, 'IOShape', 'Matrix', C), F, seqe((p, q)), some_act(prog), method(prog), cell])
    rep.never_panics('conv/init/no-panic', run, sampler=s)
    pq = mul(p, q)
    K = lambda k, i: app('draw', method(prog), nth(prog, seed, add(mul(k, pq), i)), sort='c')
    rep.equal('conv/init', run, got, ok(conv(prog, F, C, p, q, K, lambda i: ZERO)), sampler=s,
              rule='one kernel per filter and channel in drawing order, zero biases, the given activation')
    rep.equal('conv/init/seed', run, run.get(cell), nth(prog, seed, mul(mul(F, C), pq)), sampler=s,
              rule='one draw per kernel element')
    run = Run(prog, gen_contract(prog))
    cell = run.cell(seed)
    got = call(rep, run, f, [enum(prog, 'IOShape', 'Scalar', C), F, seqe((p, q)), some_act(prog), method(prog), cell])
    rep.equal('conv/init/kind', run, got, err(), rule='wrong kind of input shape is an error')
    rep.never_panics('conv/init/kind/no-panic', run)


def others_init(rep):
    prog = rep.prog
    C, p, q, r, c = sym('C'), sym('p'), sym('q'), sym('kr'), sym('kc')
    run = Run(prog)
    g, H = mk('obj', 'g', ()), matrix(prog, r, c, gen_elem('H'))
    got = call(rep, run, inherent(prog, 'Reduce', 'init'), [C, seqe((p, q)), g, H])
    rep.equal('reduce/init', run, got, reduce_(prog, C, p, q, r, c), rule='keeps its configuration')
    run = Run(prog)
    got = call(rep, run, inherent(prog, 'Flatten', 'init'), [seqe((r, c)), C])
    rep.equal('flatten/init', run, got, flatten(prog, r, c, C), rule='keeps its configuration')


def reports(rep, i, via):
    prog = rep.prog
    kind, ty = KINDS[i]
    n, m, p, q, r, c = sym('n'), sym('m'), sym('p'), sym('q'), sym('r'), sym('c')
    Sc = lambda x: enum(prog, 'IOShape', 'Scalar', x)
    Ma = lambda x: enum(prog, 'IOShape', 'Matrix', x)
    pq = mul(p, q)
    layer, ins, out, params = [
        lambda: (dense(prog, n, m), Sc(m), Sc(n), (mul(n, m), n)),
        lambda: (conv(prog, n, m, p, q), Ma(m), Ma(n), (mul(mul(n, m), pq), n)),
        lambda: (reduce_(prog, n, p, q, r, c), Ma(n), Ma(n), (ZERO, ZERO)),
        lambda: (flatten(prog, r, c, n), Ma(n), Sc(mul(mul(r, c), n)), (ZERO, ZERO)),
    ][i]()
    owner = ty
    if via == 'CLayer':
        layer, owner = wrap(prog, kind, layer), 'CLayer'
    todo = [('get_input_shape', ins), ('get_output_shape', out), ('params_len', mk('tup', *params))]
    if via == 'own' and kind == 'Flatten':
        todo.pop()
    for name, want in todo:
        f = inherent(prog, owner, name)
        run = Run(prog)
        cell = run.cell(layer)
        got = call(rep, run, f, [cell])
        key = '%s/%s/%s' % (kind, via, name)
        rep.equal(key, run, got, want, sampler=s, rule='reported numbers are those of the parameters')
        rep.never_panics(key + '/no-panic', run, sampler=s)
        rep.equal(key + '/unchanged', run, run.get(cell), layer, sampler=s, rule='inspection does not modify the layer')
