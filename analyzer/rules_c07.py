from mats import *
from rules_c02 import guarded

TY = {'k': 'param', 'n': 'T'}


def state(prog, empty=False):
    """A matrix in an arbitrary reachable state."""
    r, c, R, C = sym('r'), sym('c'), sym('R'), sym('C')
    m = matrix(prog, r, c, gen_elem('A'), cap=(R, C))
    return m, r, c, R, C, [cmp_ge(sub(R, r)), cmp_ge(sub(C, c))]


def inv(prog, m):
    """Storage matches the shape, shape within capacity."""
    body, sh, cap = field(prog, m, 'body'), field(prog, m, 'shape'), field(prog, m, 'capacity')
    if any(x.op == 'top' for x in (body, sh, cap)):
        return top('state')
    try:
        return band(cmp_eq(seq_len(body), mul(seq_at(sh, ZERO), seq_at(sh, ONE))),
                    cmp_ge(sub(seq_at(cap, ZERO), seq_at(sh, ZERO))),
                    cmp_ge(sub(seq_at(cap, ONE), seq_at(sh, ONE))))
    except T.NotNum:
        return top('state')


def decide(rep, key, run, got, cell, prog, okc, new, old, pre, what, buf=None):
    """Success condition, resulting state and buffer of an edit."""
    s = lambda i: {'maxdim': 1 + i % 4}
    if got is None:
        got = top('never returns')
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=s)
    isok = run.variant(got, 0) if got.op != 'top' else got
    rep.equal(key + '/accepts', run, isok, okc, pre=pre, sampler=s, rule='edit succeeds exactly when it fits')
    if cell is not None:
        m = run.get(cell)
        rep.equal(key + '/state', run, m, new, pre=pre, dom=okc, sampler=s, rule=what)
        rep.equal(key + '/unchanged', run, m, old, pre=pre, dom=bnot(okc), sampler=s, rule='failed edit changes nothing')
        rep.holds(key + '/invariant', run, inv(prog, m), pre=pre, sampler=s,
                  rule='elements = rows x columns and shape within capacity')
    if buf is not None:
        b, full = buf
        rep.equal(key + '/buffer', run, run.get(b), full, pre=pre, dom=bnot(okc), sampler=s,
                  rule="failed edit leaves the caller's buffer")


def check(rep):
    guarded(rep, create, rep)
    for n in ('add_row', 'add_mut_row', 'add_col', 'del_row', 'dealloc'):
        guarded(rep, edit, rep, n)
    guarded(rep, to_matrix, rep)


def create(rep):
    prog = rep.prog
    a, b = sym('a'), sym('b')
    e = seqe(())
    f = inherent(prog, 'Matrix', 'new')
    run = Run(prog)
    got = run.call(f, [])
    rep.note_run(run)
    rep.equal('new', run, got, matrix(prog, ZERO, ZERO, e), rule='empty matrix')
    f = inherent(prog, 'Matrix', 'with_capacity')
    run = Run(prog)
    got = run.call(f, [seqe((a, b))])
    rep.note_run(run)
    rep.equal('with_capacity', run, got, matrix(prog, ZERO, ZERO, e, cap=(a, b)), rule='empty matrix of the capacity')
    rep.never_panics('with_capacity/no-panic', run)
    f = inherent(prog, 'Matrix', 'from_body')
    run = Run(prog)
    body = seql(mul(a, b), gen_elem('A'))
    got = run.call(f, [body, seqe((a, b))])
    rep.note_run(run)
    rep.equal('from_body', run, got, matrix(prog, a, b, body), rule='matrix with the given elements and shape')
    rep.never_panics('from_body/no-panic', run)
    for nm, want in (('export_body', body), ('get_body', body), ('get_shape', seqe((a, b))),
                     ('get_capacity', seqe((sym('R'), sym('C')))), ('is_empty', None)):
        f = inherent(prog, 'Matrix', nm)
        run = Run(prog)
        m = matrix(prog, a, b, body, cap=(sym('R'), sym('C')))
        got = run.call(f, [m if nm == 'export_body' else run.cell(m)])
        rep.note_run(run)
        if nm == 'is_empty':
            want = band(*[cmp_eq(x, ZERO) for x in (a, b, sym('R'), sym('C'))])
        v = run.I.content(run.st, got) if got is not None else top('never returns')
        rep.equal(nm, run, v, want, rule='reports the stored data')
        rep.never_panics(nm + '/no-panic', run)


def to_matrix(rep):
    prog = rep.prog
    a, b, n = sym('a'), sym('b'), sym('n')
    f = trait_fn(prog, 'SliceToMatrix', 'to_matrix', 'slice')
    run = Run(prog)
    body = seql(n, gen_elem('A'))
    got = run.call(f, [run.cell(body), seqe((a, b))])
    rep.note_run(run)
    okc = cmp_eq(n, mul(a, b))
    rep.equal('to_matrix/accepts', run, run.variant(got, 0), okc, rule='slice becomes a matrix iff its length fits')
    rep.equal('to_matrix/state', run, got, ok(matrix(prog, a, b, body)), dom=okc, rule='elements in row-major order')
    rep.never_panics('to_matrix/no-panic', run)


def edit(rep, name):
    prog = rep.prog
    f = inherent(prog, 'Matrix', name)
    m, r, c, R, C, pre = state(prog)
    run = Run(prog)
    cell = run.cell(m)
    L, i = sym('L'), sym('i')
    old = field(prog, m, 'body')
    new = seql(L, gen_elem('B'))
    empty = band(cmp_eq(r, ZERO), cmp_eq(c, ZERO))
    if name in ('add_row', 'add_mut_row'):
        b = run.cell(new) if name == 'add_mut_row' else None
        got = run.call(f, [cell, b if b is not None else new], pre=pre)
        rep.note_run(run)
        okc = band(bor(cmp_eq(L, c), empty), cmp_ge(sub(sub(R, r), ONE)), cmp_ge(sub(C, L)))
        # the stored elements are the old ones followed by the new row
        want = struct(prog, 'Matrix', body=T.seq_cat(old, new), shape=seqe((add(r, ONE), L)), capacity=seqe((R, C)))
        decide(rep, name, run, got, cell, prog, okc, want, m, pre, 'row appended', (b, new) if b is not None else None)
        if b is not None:
            rep.equal(name + '/flushed', run, run.get(b), seqe(()), pre=pre, dom=okc, rule='row is flushed from the buffer')
    elif name == 'add_col':
        b = run.cell(new)
        got = run.call(f, [cell, b], pre=pre)
        rep.note_run(run)
        okc = band(cmp_eq(L, r), cmp_ge(sub(sub(C, c), ONE)))
        c1 = add(c, ONE)

        def el(q):
            i, j = T.f_divmod(q, c1)
            return ite(cmp_ge(sub(sub(c, ONE), j)), app('A', add(mul(i, c), j), sort='c'), app('B', i, sort='c'))
        want = struct(prog, 'Matrix', body=seql(mul(r, c1), el), shape=seqe((r, c1)), capacity=seqe((R, C)))
        decide(rep, name, run, got, cell, prog, okc, want, m, pre, 'column appended', (b, new))
    elif name == 'del_row':
        got = run.call(f, [cell, i], pre=pre)
        rep.note_run(run)
        okc = cmp_ge(sub(sub(r, ONE), i))
        s = lambda k: {'maxdim': 1 + k % 4}
        rep.never_panics(name + '/no-panic', run, pre=pre, sampler=s)
        if got is None:
            got = top('never returns')
        rep.equal(name + '/accepts', run, run.variant(got, 0), okc, pre=pre, rule='deletes exactly existing rows',
                  sampler=s)
        row = seql(c, lambda j: app('A', add(mul(i, c), j), sort='c'))
        rep.equal(name + '/returns', run, got, ok(row), pre=pre, dom=okc, rule='deleted row is returned', sampler=s)
        st = run.get(cell)
        r1 = sub(r, ONE)
        with assume(okc):
            rest = seql(mul(r1, c), lambda q: app('A', nite(cmp_ge(sub(q, mul(i, c))), add(q, c), q), sort='c'))
        rep.equal(name + '/body', run, field(prog, st, 'body'), rest, pre=pre, dom=okc, rule='other rows stay in order',
                  sampler=s)
        rep.equal(name + '/shape', run, field(prog, st, 'shape'),
                  seqe((r1, nite(cmp_eq(r1, ZERO), ZERO, c))), pre=pre, dom=okc, rule='one row fewer', sampler=s)
        rep.equal(name + '/unchanged', run, st, m, pre=pre, dom=bnot(okc), rule='failed edit changes nothing', sampler=s)
        rep.holds(name + '/invariant', run, inv(prog, st), pre=pre, sampler=s,
                  rule='elements = rows x columns and shape within capacity')
    else:
        got = run.call(f, [cell], pre=pre)
        rep.note_run(run)
        st = run.get(cell)
        rep.never_panics(name + '/no-panic', run, pre=pre)
        rep.equal(name + '/state', run, st, matrix(prog, r, c, gen_elem('A')), pre=pre,
                  rule='releases spare capacity and keeps the elements')
