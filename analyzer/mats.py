"""Symbolic matrices, inputs and layers used as arguments of entry points."""
from spec import *
import random
import stdmodel


def adt_path(prog, name):
    c = [p for p in prog.adts if p.split('::')[-1] == name]
    if len(c) != 1:
        raise Missing('type %s' % name)
    return c[0]


def fields(prog, name, variant=0):
    return [f['n'] for f in prog.adts[adt_path(prog, name)]['v'][variant]['f']]


def struct(prog, name, **kw):
    """Struct value by field name; unknown fields make the layout unsupported."""
    p = adt_path(prog, name)
    fs = fields(prog, name)
    if set(fs) != set(kw):
        raise Unsupported('fields of %s changed: %s' % (name, fs))
    return adt(p, 0, *[kw[f] for f in fs])


def field(prog, v, fname):
    """Field of a struct value, through conditionals."""
    if v is None:
        return top('never returns')
    if v.op == 'ite':
        return ite(v.a[0], field(prog, v.a[1], fname), field(prog, v.a[2], fname))
    if v.op != 'adt':
        return v if v.op in ('top', 'undef', 'unreach') else top('field %s' % fname)
    fs = [f['n'] for f in prog.adts[v.a[0]]['v'][v.a[1]]['f']]
    if fname not in fs:
        raise Unsupported('field %s' % fname)
    return v.a[2][fs.index(fname)]


FIX = [None]


def fixed(name, r, pos=True):
    """Size given to a symbol in the r-th round over fixed sizes."""
    if r == 0:
        return 2
    return random.Random('%s/%d' % (name, r)).choice((1, 2, 2, 3, 3) if pos or r < 3 else (0, 1, 2, 3))


def sym(name, pos=False):
    if FIX[0] is not None:
        return const(fixed(name, FIX[0], pos))
    if pos:
        # a name of its own: other obligations use the same letter for any size
        name += '⁺'
        T.POS.add(name)
    return app(name, sort='i')


def matrix(prog, r, c, elem, cap=None):
    """Matrix of r rows and c columns; elem maps the flat index to a value."""
    body = elem if isinstance(elem, T.Node) else seql(mul(r, c), elem)
    return struct(prog, 'Matrix', body=body, shape=seqe((r, c)), capacity=seqe(cap or (r, c)))


def gen_elem(name, *pre):
    """Elements of the generic type T: one uninterpreted number per index."""
    return lambda i: app(name, *(pre + (i,)), sort='c')


def cf_elem(path, name, *pre):
    return lambda i: adt(path, 0, app(name + '.x', *(pre + (i,))), app(name + '.y', *(pre + (i,))))


def io_scalar(prog, seq):
    return adt(adt_path(prog, 'IOType'), variant(prog, 'IOType', 'Scalar'), seq)


def io_matrix(prog, seq):
    return adt(adt_path(prog, 'IOType'), variant(prog, 'IOType', 'Matrix'), seq)


def variant(prog, ty, name):
    ns = [v['n'] for v in prog.adts[adt_path(prog, ty)]['v']]
    if name not in ns:
        raise Missing('%s::%s' % (ty, name))
    return ns.index(name)


def enum(prog, ty, name, *fs):
    return adt(adt_path(prog, ty), variant(prog, ty, name), *fs)


def content(run, v):
    """The value with all references resolved in the final state."""
    if v is None:
        return top('never returns')
    try:
        return run.I.deep(run.st, v)
    except (Unsupported, T.NotNum) as e:
        return top(str(e))


def iter_content(run, v):
    """Everything an iterator yields, as a sequence."""
    if v is None:
        return top('never returns')
    try:
        n, pull = stdmodel.iter_pull(run.I, run.st, stdmodel.as_iter(run.I, run.st, v))
        c = T.as_int(num(n))
        if c is not None and c <= 8:
            return seqe(tuple(run.I.deep(run.st, pull(run.st, const(k))) for k in range(c)))
        return seql(n, lambda k: run.I.deep(run.st, pull(run.st, k)))
    except (Unsupported, T.NotNum) as e:
        return top(str(e))
