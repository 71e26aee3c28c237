"""Symbolic layers of the crate and the parts of their behaviour that several properties share."""
from mats import *
import acts

KINDS = (('Dense', 'DenseCLayer'), ('Convolutional', 'ConvCLayer'), ('Reduce', 'Reduce'), ('Flatten', 'Flatten'))


def s(i):
    return {'maxdim': 1 + i % 3}


def some_act(prog):
    """Any activation option: an uninterpreted constant of the enum."""
    return mk('obj', 'act', (), tykey({'k': 'adt', 'p': adt_path(prog, 'ComplexActFunc'), 'a': []}))


def dense(prog, n, m, W=None, b=None):
    """Dense layer with n units and m inputs."""
    return struct(prog, 'DenseCLayer', weights=matrix(prog, n, m, W or gen_elem('W')), biases=seql(n, b or gen_elem('b')),
                  func=some_act(prog))


def kernel(prog, p, q, K, f):
    """Kernel number f (filter-major) of a layer."""
    return matrix(prog, p, q, lambda i: K(f, i))


def conv(prog, F, C, p, q, K=None, b=None):
    """Convolutional layer with F filters over C channels and p x q kernels."""
    K = K or (lambda f, i: app('K', f, i, sort='c'))
    return struct(prog, 'ConvCLayer', input_features_len=C, func=some_act(prog), biases=seql(F, b or gen_elem('b')),
                  kernels=matrix(prog, F, C, lambda f: kernel(prog, p, q, K, f)))


def reduce_(prog, C, p, q, kr, kc):
    return struct(prog, 'Reduce', input_features_len=C, block_size=seqe((p, q)), block_func=mk('obj', 'g', ()),
                  interp_kernel=matrix(prog, kr, kc, gen_elem('H')))


def flatten(prog, r, c, C):
    try:
        return struct(prog, 'Flatten', input_size=mk('tup', seqe((r, c)), C))
    except Unsupported:
        # stored otherwise: what the constructor makes of it
        run = Run(prog)
        v = run.call(inherent(prog, 'Flatten', 'init'), [seqe((r, c)), C])
        if v is None or v.op != 'adt' or run.failed:
            raise
        return v


def wrap(prog, kind, layer):
    return enum(prog, 'CLayer', kind, layer)


def maps(prog, C, r, c, X=None):
    """C feature maps of r x c elements."""
    X = X or (lambda f, i: app('X', f, i, sort='c'))
    return seql(C, lambda f: matrix(prog, r, c, lambda i: X(f, i)))


def act(prog, x, which='activate', f=None):
    return app('act:' + which, f if f is not None else some_act(prog), x, sort='c')


def never(v):
    return v if v is not None else top('never returns')


def call(rep, run, f, args, **kw):
    got = run.call(f, args, **kw)
    rep.note_run(run)
    return never(got)


def dispatches(prog, kind, method, layer, args):
    """CLayer's method hands the same arguments to the method of the variant and returns its result unchanged.
    True when that is so; the caller examines the result in full otherwise."""
    own, f = inherent(prog, dict(KINDS)[kind], method), inherent(prog, 'CLayer', method)
    if own is None or f is None:
        return None
    run = Run(prog)
    seen = []
    res = mk('obj', 'result', ())

    def h(I, st, a, c, at):
        seen.append(tuple(I.deep(st, x) for x in a))
        return res
    run.I.contracts[own['p']] = h
    vals = [wrap(prog, kind, layer)] + list(args)
    cells = [run.cell(v) if byref else v for v, byref in zip(vals, [True] + [v.op == 'adt' for v in args])]
    got = run.call(f, cells)
    if run.failed or run.panics or got is not res or len(seen) != 1:
        return None
    return run if all(x is y for x, y in zip(seen[0], [layer] + list(args))) else None
