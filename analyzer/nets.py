"""Symbolic networks whose layers are opaque, and contracts for the layer interface."""
from layers import *


def layer_ty(prog):
    return {'k': 'adt', 'p': adt_path(prog, 'CLayer'), 'a': [{'k': 'param', 'n': 'T'}]}


def io_ty(prog):
    return {'k': 'adt', 'p': adt_path(prog, 'IOType'), 'a': [{'k': 'param', 'n': 'T'}]}


def L(prog):
    """i -> the i-th layer, opaque."""
    return lambda i: mk('obj', 'L', (i,), tykey(layer_ty(prog)))


def net(prog, layers):
    return struct(prog, 'CNetwork', layers=layers)


def fwd(prog, layer, x):
    return mk('obj', 'fwd', (layer, x), tykey(io_ty(prog)))


def x0(prog):
    return mk('obj', 'in', (), tykey(io_ty(prog)))


def forward_contract(prog):
    """Running a layer: an uninterpreted function of the layer and its input."""
    f = inherent(prog, 'CLayer', 'foward')

    def h(I, st, a, c, at):
        return ok(fwd(prog, I.content(st, a[0]), I.content(st, a[1])))
    return {f['p']: h}


def opaque(v, names=('L',)):
    """The value, or unknown when it looks inside an opaque object."""
    def peeks(x, seen):
        if isinstance(x, tuple):
            return any(peeks(y, seen) for y in x)
        if not isinstance(x, T.Node) or x in seen:
            return False
        seen.add(x)
        if x.op in ('app', 'obj', 'batom', 'seqphi') and isinstance(x.a[0], str):
            b = x.a[0]
            if '.' in b and b.split('.')[0] in names:
                return True
        return any(peeks(y, seen) for y in x.a)
    return top('looks inside an opaque layer') if peeks(v, set()) else v


def outputs(prog, layer, inp):
    """k -> output of the first k layers."""
    ty = tykey(io_ty(prog))

    def at(k):
        k = num(k)
        c = T.as_int(k)
        if c is not None:
            x = inp
            for i in range(c):
                x = fwd(prog, layer(const(i)), x)
            return x
        nm = T.fresh_name('φ')
        kv = fresh('k', k)
        acc = mk('obj', nm, (), ty)
        fo = T.mk_fold(k, (inp,), (fwd(prog, layer(atom(kv)), acc),), kv, [nm], [('obj', ty)])
        return mk('obj', 'prj0', (fo,), ty)
    return at


def PW(layer):
    return app('nw', layer, sort='i')


def PB(layer):
    return app('nb', layer, sort='i')


def propagates(layer):
    return mk('batom', 'propagates', (layer,))


def upstream(what, layer, a, d, dc):
    """Derivatives returned by a layer, as opaque vectors."""
    return mk('seqphi', what, tykey({'k': 'param', 'n': 'T'}), (layer, a, d, dc))


def training_contracts(prog):
    """The layer interface used by training: opaque derivatives, counts and updates."""
    m = lambda name: inherent(prog, 'CLayer', name)['p']
    cs = forward_contract(prog)
    cs[m('params_len')] = lambda I, st, a, c, at: (lambda l: mk('tup', PW(l), PB(l)))(I.content(st, a[0]))
    cs[m('propagates')] = lambda I, st, a, c, at: propagates(I.content(st, a[0]))

    def derivatives(I, st, a, c, at):
        l, x, d, dc = (I.content(st, v) for v in a)
        return ok(mk('tup', seql(PW(l), lambda i: app('dw', l, x, d, dc, i, sort='c')),
                     seql(PB(l), lambda i: app('db', l, x, d, dc, i, sort='c')),
                     upstream('da', l, x, d, dc), upstream('dac', l, x, d, dc)))

    def adjust(I, st, a, c, at):
        l, dw, db = (I.content(st, v) for v in a)
        I.write_ref(st, a[0], mk('obj', 'adj', (l, dw, db), tykey(layer_ty(prog))))
        return ok(UNIT)
    cs[m('compute_derivatives')] = derivatives
    cs[m('neg_conj_adjustment')] = adjust
    cs['math::Complex::d_loss'] = lambda I, st, a, c, at: ok(
        (lambda t, y, f: seql(app('no', t, y, sort='i'), lambda i: app('dl', t, y, f, i, sort='c')))(*[I.content(st, v) for v in a]))
    return cs
