from spec import *

PREC = (('Cf32', 'f32'), ('Cf64', 'f64'))


def cplx(prog, ty, name):
    p = [a for a in prog.adts if a.split('::')[-1] == ty]
    x, y = app(name + '.x'), app(name + '.y')
    return adt(p[0], 0, x, y), x, y


def arith(op, a, b, c, d):
    if op == 'add':
        return add(a, c), add(b, d)
    if op == 'sub':
        return sub(a, c), sub(b, d)
    if op == 'mul':
        return sub(mul(a, c), mul(b, d)), add(mul(a, d), mul(b, c))
    n = add(mul(c, c), mul(d, d))
    return div(add(mul(a, c), mul(b, d)), n), div(sub(mul(b, c), mul(a, d)), n)


def check(rep):
    prog = rep.prog
    for ty, _ in PREC:
        for op in ('add', 'sub', 'mul', 'div'):
            for form in ('value', 'reference', 'assign'):
                tr = op.capitalize() + ('Assign' if form == 'assign' else '')
                m = op + ('_assign' if form == 'assign' else '')
                key = '%s/%s/%s' % (ty, op, form)
                try:
                    f = trait_fn(prog, tr, m, ty, form == 'reference')
                except Missing as e:
                    rep.missing(str(e))
                    continue
                run = Run(prog)
                l, a, b = cplx(prog, ty, 'l')
                r, c, d = cplx(prog, ty, 'r')
                wx, wy = arith(op, a, b, c, d)
                want = adt(l.a[0], 0, wx, wy)
                zero = band(cmp_eq(c, ZERO, 'r'), cmp_eq(d, ZERO, 'r'))
                dom = bnot(zero) if op == 'div' else TRUE
                if form == 'value':
                    got = run.call(f, [l, r])
                elif form == 'reference':
                    rl, rr = run.cell(l), run.cell(r)
                    got = run.call(f, [rl, rr])
                    rep.equal(key + '/operands', run, mk('tup', run.get(rl), run.get(rr)), mk('tup', l, r), dom=dom,
                              rule='operands are not modified')
                else:
                    rl = run.cell(l)
                    run.call(f, [rl, r])
                    got = run.get(rl) if run.ret is not None else mk('unreach')
                if got is None:
                    got = top('never returns')
                rep.note_run(run)
                rep.equal(key, run, got, want, dom=dom, rule='result is the mathematical %s' % op)
                rep.never_panics(key + '/no-panic', run, dom=dom)
                if op == 'div':
                    rep.holds(key + '/zero', run0(run), run.panic_cond(), pre=(cmp_eq(c, ZERO, 'r'), cmp_eq(d, ZERO, 'r')),
                              rule='division by zero panics', fn=f, sampler=lambda i: {'pool': (0, 0, 1)})


class run0:
    """A run view without panics (to state facts about the panic condition itself)."""

    def __init__(self, run):
        self.panics = []
        self.failed = run.failed
        self.fn = run.fn

    def panic_cond(self):
        return FALSE
