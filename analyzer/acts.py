"""Definitions of the activation options and helpers to extract them."""
from spec import *
from rules_c01 import cplx, PREC

OPTIONS = ('None', 'ModZ', 'RITSigmoid', 'RITTanh', 'RITReLU', 'ZReLU', 'Cardioid')
KINDS = (('', 'activate'), ('_d', 'd_activate'), ('_d_conj', 'd_conj_activate'))


def option(prog, name):
    for p, a in prog.adts.items():
        if p.split('::')[-1] == 'ComplexActFunc':
            for i, v in enumerate(a['v']):
                if v['n'] == name:
                    return adt(p, i)
    raise Missing('ComplexActFunc::%s' % name)


def options(prog):
    """Every option of the enum in source order, extra ones included."""
    for p, a in prog.adts.items():
        if p.split('::')[-1] == 'ComplexActFunc':
            return [v['n'] for v in a['v']]
    raise Missing('ComplexActFunc')


def suffix(ty):
    return ty.lower()


def extract(rep, ty, opt, kind, x, y, path):
    """Value computed by compute{kind}_val_* at x+iy."""
    f = inherent(rep.prog, 'ComplexActFunc', 'compute%s_val_%s' % (kind, suffix(ty)))
    run = Run(rep.prog)
    r = run.call(f, [run.cell(option(rep.prog, opt)), run.cell(adt(path, 0, x, y))])
    rep.note_run(run)
    if r is None:
        r = top('never returns')
    return run, r


def sig(x):
    return div(T.f_exp(x), add(ONE, T.f_exp(x)))


def relu(x):
    return nite(cmp_gt(x, 'r'), x, ZERO)


def definition(opt, x, y):
    """(re, im, domain) of an option at x+iy."""
    n = T.f_sqrt(add(mul(x, x), mul(y, y)))
    nz = bnot(band(cmp_eq(x, ZERO, 'r'), cmp_eq(y, ZERO, 'r')))
    if opt == 'None':
        return x, y, TRUE
    if opt == 'ModZ':
        return div(x, n), div(y, n), nz
    if opt == 'RITSigmoid':
        return sig(x), sig(y), TRUE
    if opt == 'RITTanh':
        return T.f_tanh(x), T.f_tanh(y), TRUE
    if opt == 'RITReLU':
        return relu(x), relu(y), TRUE
    if opt == 'ZReLU':
        neg_ = bor(cmp_gt(neg(x), 'r'), cmp_gt(neg(y), 'r'))
        # on the axes the sign bit of a zero decides; both limits are accepted off the diagonal cases
        return nite(neg_, ZERO, x), nite(neg_, ZERO, y), band(bnot(cmp_eq(x, ZERO, 'r')), bnot(cmp_eq(y, ZERO, 'r')))
    if opt == 'Cardioid':
        ph = app('atan2', y, x)
        c, s = T.f_cos(ph), T.f_sin(ph)
        k = mul(const(2), add(ONE, c))
        return mul(k, c), mul(k, s), nz
    raise KeyError(opt)


def bounded(v, lim):
    return band(cmp_gt(sub(const(lim), v), 'r'), cmp_gt(add(const(lim), v), 'r'))
