from mats import *
from acts import option, options, KINDS, bounded
from rules_c01 import cplx, PREC
from rules_c02 import guarded
from rules_c20 import seeds
import rules_c06

RULE = 'single and double precision twins compute the same function'


def rename(prog, t):
    """Rename the double precision type to the single precision one."""
    a, b = adt_path(prog, 'Cf64'), adt_path(prog, 'Cf32')
    memo = {}

    def rec(x):
        if isinstance(x, tuple):
            return tuple(rec(y) for y in x)
        if isinstance(x, str):
            return b if x == a else x
        if not isinstance(x, T.Node):
            return x
        r = memo.get(x)
        if r is None:
            na = tuple(rec(y) for y in x.a)
            r = x if na == x.a else mk(x.op, *na)
            memo[x] = r
        return r
    return rec(t)


def twin(rep, key, find, args, dom=TRUE, out='ret', sampler=None, pre=()):
    """find(ty, fl) -> fn; args(run, path) -> (argument list, cells to compare afterwards)."""
    prog = rep.prog
    try:
        res = []
        for ty, fl in PREC:
            f = find(ty, fl)
            run = Run(prog)
            path = adt_path(prog, ty)
            a, cells = args(run, path)
            got = run.call(f, a, pre=pre)
            rep.note_run(run)
            if got is None:
                got = mk('str', 'no return')
            v = mk('tup', got, *[run.get(c) for c in cells])
            res.append((run, f, v))
        (r32, f32, v32), (r64, f64, v64) = res
        v64 = rename(prog, v64)
        p32, p64 = r32.panic_cond(), r64.panic_cond()
        both = Both(r32, r64)
        rep.equal(key, both, v64, v32, dom=dom, rule=RULE, fn=f64, sampler=sampler, pre=pre)
        if p32 is not p64:
            rep.equal(key + '/panics', NoPanic(r64), p64, p32, dom=dom, rule='twins panic on the same inputs', fn=f64,
                      sampler=sampler, pre=pre)
        narrow(rep, key, r64, f64)
    except Missing as e:
        rep.missing(str(e))


class Both:
    def __init__(self, a, b):
        self.panics = list(a.panics) + list(b.panics)
        self.failed = a.failed or b.failed
        self.fn = b.fn

    def panic_cond(self):
        return bor(*[p[0] for p in self.panics])


class NoPanic:
    def __init__(self, r):
        self.panics = []
        self.failed = r.failed
        self.fn = r.fn

    def panic_cond(self):
        return FALSE


def has_f32(ty):
    if isinstance(ty, dict):
        if ty.get('k') == 'prim' and ty.get('n') == 'f32':
            return True
        return any(has_f32(v) for v in ty.values())
    if isinstance(ty, list):
        return any(has_f32(v) for v in ty)
    return False


def narrow(rep, key, run, f64):
    """No function reached from double precision code holds a single precision value."""
    for d in sorted(run.I.used):
        g = rep.prog.fns.get(d)
        if g is None:
            continue
        bad = [i for i, ty in enumerate(g['body']['locals']) if has_f32(ty)]
        if bad:
            rep.fact(key + '/narrow', False, g, 'double precision code does not pass through single precision',
                     'f32 value in %s reached from %s' % (g['p'], f64['p']))
            return
    rep.fact(key + '/narrow', True, f64, 'double precision code does not pass through single precision')


def check(rep):
    prog = rep.prog
    ordp = lambda i: {'pool': (0, 1, -1, 2, 3, 0.5)}
    cp = lambda nm: (lambda path: adt(path, 0, app(nm + '.x'), app(nm + '.y')))
    u, v = cp('u'), cp('v')
    # operators
    for op in ('add', 'sub', 'mul', 'div'):
        tr = op.capitalize()
        twin(rep, op, lambda ty, fl: trait_fn(prog, tr, op, ty), lambda r, p: ([u(p), v(p)], []))
        twin(rep, '&' + op, lambda ty, fl: trait_fn(prog, tr, op, ty, True),
             lambda r, p: ([r.cell(u(p)), r.cell(v(p))], []))

        def assign(r, p):
            c = r.cell(u(p))
            return [c, v(p)], [c]
        twin(rep, op + '_assign', lambda ty, fl: trait_fn(prog, tr + 'Assign', op + '_assign', ty), assign)
    for m in ('lt', 'le', 'gt', 'ge', 'partial_cmp', 'eq'):
        tr = 'PartialEq' if m == 'eq' else 'PartialOrd'
        have = [ty for ty, _ in PREC if has(prog, tr, m, ty)]
        if len(have) == 2:
            twin(rep, m, lambda ty, fl: trait_fn(prog, tr, m, ty), lambda r, p: ([r.cell(u(p)), r.cell(v(p))], []),
                 sampler=ordp)
        elif m in ('partial_cmp', 'eq'):
            rep.missing('%s for both precisions' % m)
    # accessors
    a, b = app('a'), app('b')
    n = sym('n')
    for m, args in (('new', lambda r, p: ([a, b], [])), ('newe', lambda r, p: ([a, b], [])),
                    ('usize_to_complex', lambda r, p: ([n], [])), ('unit', lambda r, p: ([], [])),
                    ('iunit', lambda r, p: ([], []))):
        twin(rep, m, lambda ty, fl: trait_fn(prog, 'Complex', m, ty), args)
    for m in ('re', 'im', 'norm', 'norm_sq', 'phase', 'conj'):
        twin(rep, m, lambda ty, fl: trait_fn(prog, 'Complex', m, ty), lambda r, p: ([r.cell(u(p))], []))
    twin(rep, 'default', lambda ty, fl: trait_fn(prog, 'Default', 'default', ty), lambda r, p: ([], []))
    # one-hot and reals
    k = sym('index')
    pm = lambda r: r.cell(enum(prog, 'PredictModel', 'Sparse'))
    twin(rep, 'Complex::gen_pred', lambda ty, fl: trait_fn(prog, 'Complex', 'gen_pred', ty),
         lambda r, p: ([n, k, pm(r)], []))
    twin(rep, 'Real::gen_pred', lambda ty, fl: trait_fn(prog, 'Real', 'gen_pred', fl), lambda r, p: ([n, k, pm(r)], []))
    twin(rep, 'Real::unit', lambda ty, fl: trait_fn(prog, 'Real', 'unit', fl), lambda r, p: ([], []))
    twin(rep, 'Real::usize_to_real', lambda ty, fl: trait_fn(prog, 'Real', 'usize_to_real', fl), lambda r, p: ([n], []))
    s = app('seed', sort='i')
    pre = [cmp_ge(sub(const(2 ** 128 - 1), s))]

    def sd(r, p):
        c = r.cell(s)
        return [c], [c]

    def sd2(r, p):
        c = r.cell(s)
        return [c, app('scale', sort='i')], [c]
    twin(rep, 'lcgf', lambda ty, fl: free_fn(prog, 'math::random::lcg' + fl), sd, sampler=seeds, pre=pre)
    twin(rep, 'Real::gen', lambda ty, fl: trait_fn(prog, 'Real', 'gen', fl), sd2, sampler=seeds, pre=pre)
    # activations
    guarded(rep, activations, rep, u)
    guarded(rep, losses, rep)


def has(prog, tr, m, ty):
    try:
        trait_fn(prog, tr, m, ty)
        return True
    except Missing:
        return False


def activations(rep, u):
    prog = rep.prog
    x, y = app('u.x'), app('u.y')
    n = sym('n')
    for opt in options(prog):
        dom = band(bounded(x, 10), bounded(y, 10)) if opt == 'RITSigmoid' else TRUE
        o = option(prog, opt)
        for kind, tr in KINDS:
            twin(rep, '%s/%s' % (opt, tr),
                 lambda ty, fl: inherent(prog, 'ComplexActFunc', 'compute%s_val_%s' % (kind, ty.lower())),
                 lambda r, p: ([r.cell(o), r.cell(u(p))], []), dom=dom)
            twin(rep, '%s/%s/trait' % (opt, tr), lambda ty, fl: trait_fn(prog, 'Complex', tr, ty),
                 lambda r, p: ([r.cell(u(p)), r.cell(o)], []), dom=dom)

            def sl(r, p):
                c = r.cell(seql(n, cf_elem(p, 'v')))
                return [r.cell(o), c], [c]
            small = lambda i: {'pool': (0, 1, -1, 2, -3, T.Fraction(1, 2))}
            if opt == 'RITSigmoid':
                i = fresh('i', n)
                d = bnot(T.exists(n, lambda j: bnot(band(bounded(app('v.x', j), 10), bounded(app('v.y', j), 10)))))
            else:
                d = TRUE
            twin(rep, '%s/%s/slice' % (opt, tr),
                 lambda ty, fl: inherent(prog, 'ComplexActFunc', 'compute%s_%s' % (kind, ty.lower())), sl, dom=d,
                 sampler=small)


def losses(rep):
    prog = rep.prog
    n, m = sym('n', True), sym('m', True)
    k, r_, c = sym('k', True), sym('r', True), sym('c', True)
    rc = mul(r_, c)

    def maps(path, nm):
        return seql(k, lambda q: matrix(prog, r_, c, lambda i: cf_elem(path, nm)(add(mul(q, rc), i))))
    small = lambda i: {'pool': (0, 1, -1, T.Fraction(1, 2), T.Fraction(-1, 2), T.Fraction(1, 4))}
    for loss in rules_c06.LOSSES:
        o = enum(prog, 'ComplexLossFunc', loss)
        for nm in ('compute', 'compute_d'):
            find = lambda ty, fl: inherent(prog, 'ComplexLossFunc', '%s_%s' % (nm, ty.lower()))
            for what, tv, pv in (
                    ('vector', lambda p: io_scalar(prog, seql(m, cf_elem(p, 't'))), lambda p: io_scalar(prog, seql(n, cf_elem(p, 'p')))),
                    ('maps', lambda p: io_matrix(prog, maps(p, 't')), lambda p: io_matrix(prog, maps(p, 'p'))),
                    ('kind1', lambda p: io_scalar(prog, seql(m, cf_elem(p, 't'))), lambda p: io_matrix(prog, maps(p, 'p'))),
                    ('kind2', lambda p: io_matrix(prog, maps(p, 't')), lambda p: io_scalar(prog, seql(n, cf_elem(p, 'p'))))):
                twin(rep, '%s/%s/%s' % (loss, nm, what), find,
                     lambda r, p: ([r.cell(o), r.cell(tv(p)), r.cell(pv(p))], []), sampler=small)
