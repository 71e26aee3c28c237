from mats import *
from rules_c02 import guarded
import stdmodel


def setup(prog):
    r, c = sym('r', True), sym('c', True)
    return matrix(prog, r, c, gen_elem('A')), r, c


def A(r, c, i, j):
    return app('A', add(mul(i, c), j), sort='c')


def s(i):
    return {'maxdim': 1 + i % 4}


def check(rep):
    for f in (elements, rows, columns, iters, whole):
        guarded(rep, f, rep)
    guarded(rep, empties, rep)


def call(rep, name, args, key=None):
    prog = rep.prog
    f = inherent(prog, 'Matrix', name)
    m, r, c = setup(prog)
    run = Run(prog)
    cell = run.cell(m)
    got = run.call(f, [cell] + args(run))
    rep.note_run(run)
    rep.never_panics((key or name) + '/no-panic', run, sampler=s)
    return run, cell, m, r, c, got if got is not None else top('never returns')


def unchanged(rep, key, run, cell, m):
    rep.equal(key + '/pure', run, run.get(cell), m, sampler=s, rule='reading changes nothing')


def write_through(rep, key, run, cell, m, r, c, got, lo, n, okc):
    """Writing through the returned reference changes exactly the addressed elements."""
    prog = rep.prog
    I = run.I
    try:
        ref = I.get(I.get(got, ('v', 0)), ('f', 0))
        with assume(okc):
            ref = T.resimplify(ref)
        if ref.op != 'ref':
            rep.undecided(key + '/write', run.fn, 'mutable borrow addresses the element', 'no reference')
            return
        st = run.st.copy(TRUE)
        if n is None:
            I.write_ref(st, ref, app('W', sort='c'))
        else:
            I.write_ref(st, ref, seql(n, lambda j: app('W', j, sort='c')))
        new = I.read_ref(st, cell)
    except Unsupported as e:
        rep.undecided(key + '/write', run.fn, 'mutable borrow addresses the element', str(e))
        return
    if n is None:
        want = matrix(prog, r, c, lambda q: ite(cmp_eq(q, lo), app('W', sort='c'), app('A', q, sort='c')))
    else:
        want = matrix(prog, r, c, lambda q: ite(band(cmp_ge(sub(q, lo)), cmp_gt(sub(add(lo, n), q))),
                                               app('W', sub(q, lo), sort='c'), app('A', q, sort='c')))
    rep.equal(key + '/write', run, new, want, dom=okc, sampler=s, rule='mutable borrow addresses exactly the elements')


def elements(rep):
    i, j = sym('i'), sym('j')
    for name in ('elm', 'elm_mut'):
        run, cell, m, r, c, got = call(rep, name, lambda run: [i, j])
        okc = band(cmp_gt(sub(r, i)), cmp_gt(sub(c, j)))
        want = ite(okc, ok(A(r, c, i, j)), err())
        rep.equal(name, run, content(run, got), want, sampler=s, rule='element at (i,j) or an error outside the shape')
        unchanged(rep, name, run, cell, m)
        if name == 'elm_mut':
            write_through(rep, name, run, cell, m, r, c, got, add(mul(i, c), j), None, okc)


def rows(rep):
    i = sym('i')
    for name in ('row', 'row_as_mut'):
        run, cell, m, r, c, got = call(rep, name, lambda run: [i])
        okc = cmp_gt(sub(r, i))
        want = ite(okc, ok(seql(c, lambda j: A(r, c, i, j))), err())
        rep.equal(name, run, content(run, got), want, sampler=s, rule='row i or an error outside the shape')
        unchanged(rep, name, run, cell, m)
        if name == 'row_as_mut':
            write_through(rep, name, run, cell, m, r, c, got, mul(i, c), c, okc)
    into(rep, 'row_into_slice', lambda r, c: (r, c, lambda j: A(r, c, i, j)))


def into(rep, name, f):
    i, L = sym('i'), sym('L')
    buf = seql(L, gen_elem('B'))
    box = []

    def args(run):
        b = run.cell(buf)
        box.append(b)
        return [i, b]
    run, cell, m, r, c, got = call(rep, name, args)
    lim, n, el = f(r, c)
    okc = band(cmp_gt(sub(lim, i)), cmp_eq(L, n))
    rep.equal(name + '/accepts', run, run.variant(got, 0), okc, sampler=s,
              rule='error for an index outside the shape or a buffer of the wrong length')
    rep.equal(name + '/buffer', run, run.get(box[0]), ite(okc, seql(n, el), buf), sampler=s,
              rule='buffer receives the elements, or is not written')
    unchanged(rep, name, run, cell, m)


def columns(rep):
    i = sym('i')
    into(rep, 'col_into_slice', lambda r, c: (c, r, lambda q: A(r, c, q, i)))
    name = 'copy_col_into_vec'
    run, cell, m, r, c, got = call(rep, name, lambda run: [i])
    want = ite(cmp_gt(sub(c, i)), ok(seql(r, lambda q: A(r, c, q, i))), err())
    rep.equal(name, run, content(run, got), want, sampler=s, rule='column i or an error outside the shape')
    unchanged(rep, name, run, cell, m)


def iters(rep):
    for name in ('rows_as_iter', 'rows_as_iter_mut', 'rows_as_par_chunks'):
        run, cell, m, r, c, got = call(rep, name, lambda run: [])
        want = seql(r, lambda i: seql(c, lambda j: A(r, c, i, j)))
        rep.equal(name, run, iter_content(run, got), want, sampler=s, rule='all rows in order')
        unchanged(rep, name, run, cell, m)
    name = 'get_slider'
    i, k = sym('i'), sym('k')
    prog = rep.prog
    f = inherent(prog, 'Matrix', name)
    m, r, c = setup(prog)
    run = Run(prog)
    cell = run.cell(m)
    pre = [cmp_ge(sub(sub(r, i), k))]
    got = run.call(f, [cell, i, k], pre=pre)
    rep.note_run(run)
    rep.never_panics(name + '/no-panic', run, pre=pre, sampler=s)
    want = seql(k, lambda q: seql(c, lambda j: A(r, c, add(i, q), j)))
    rep.equal(name, run, iter_content(run, got), want, pre=pre, sampler=s, rule='band of k rows starting at row i')
    run = Run(prog)
    run.call(f, [run.cell(matrix(prog, r, ZERO, seqe(()))), i, k], pre=pre)
    rep.note_run(run)
    rep.never_panics(name + '/no columns/no-panic', run, pre=pre, sampler=s)


def whole(rep):
    for name in ('get_body', 'get_body_as_mut'):
        run, cell, m, r, c, got = call(rep, name, lambda run: [])
        rep.equal(name, run, content(run, got), field(rep.prog, m, 'body'), sampler=s, rule='all elements in row-major order')
    prog = rep.prog
    f = inherent(prog, 'Matrix', 'body_into_iter')
    m, r, c = setup(prog)
    run = Run(prog)
    got = run.call(f, [m])
    rep.note_run(run)
    rep.equal('body_into_iter', run, iter_content(run, got), field(prog, m, 'body'), rule='all elements in row-major order')
    rep.never_panics('body_into_iter/no-panic', run)


def empties(rep):
    """Matrices without rows or columns are read without a panic."""
    prog = rep.prog
    for tag, (r, c) in (('empty', (ZERO, ZERO)), ('no-columns', (sym('r', True), ZERO)), ('no-rows', (ZERO, sym('c', True)))):
        for name, args in (('rows_as_iter', []), ('rows_as_iter_mut', []), ('rows_as_par_chunks', []),
                           ('elm', [sym('i'), sym('j')]), ('elm_mut', [sym('i'), sym('j')]), ('row', [sym('i')]),
                           ('copy_col_into_vec', [sym('i')])):
            f = inherent(prog, 'Matrix', name)
            run = Run(prog)
            got = run.call(f, [run.cell(matrix(prog, r, c, seqe(())))] + args)
            rep.note_run(run)
            key = '%s/%s' % (name, tag)
            rep.never_panics(key + '/no-panic', run, sampler=s)
            if name in ('elm', 'elm_mut'):
                rep.equal(key, run, content(run, got), err(), rule='no element exists')
            elif name == 'row':
                rep.equal(key, run, content(run, got), ite(cmp_gt(sub(r, sym('i'))), ok(seqe(())), err()),
                          rule='rows are empty', sampler=s)
            elif name == 'copy_col_into_vec':
                rep.equal(key, run, content(run, got), ite(cmp_gt(sub(c, sym('i'))), ok(seqe(())), err()),
                          rule='columns are empty', sampler=s)
            else:
                rep.equal(key, run, iter_content(run, got), seqe(()), rule='no rows with elements')
