from texts import *
from rules_c01 import PREC, cplx
from rules_c02 import guarded

MAXR, MAXC = 3, 3


def sizes(i):
    return {'maxdim': 2 + i % 2, 'ranges': {'failat': (0, 12)}}


def check(rep):
    guarded(rep, export, rep, matrix_csv, (None, None))
    guarded(rep, export, rep, dataset_csv, (None, None, None))
    for r in range(MAXR + 1):
        for c in range(MAXC + 1):
            guarded(rep, export, rep, matrix_csv, (r, c))
    for n in range(3):
        for a, b in ((1, 1), (2, 1), (1, 2), (3, 2), (2, 0)):
            guarded(rep, export, rep, dataset_csv, (n, a, b))
    for ty, _ in PREC:
        guarded(rep, export, rep, number, (ty,))


def export(rep, one, dims):
    """The export without failures, then with a failure of each operation in turn."""
    ops = one(rep, dims, None)
    if dims[0] is None:
        one(rep, dims, 'any')
    for k in range(ops or 0):
        one(rep, dims, k)


def size(k, name):
    return sym(name) if k is None else const(k)


def lines(n, m, f, k):
    """n lines of m tokens each."""
    if k is None:
        return T.seq_repeat_cat(n, m, f)
    return T.seq_cat(*[f(const(i)) for i in range(k)]) if k else chars('')


def joined(parts):
    """Displayed values with a comma between them."""
    n = num(sum_len(parts))
    at = lambda j: pick(parts, j)
    body = T.seq_repeat_cat(sub(n, ONE), const(2), lambda i: seqe((const(44), shown(at(add(i, ONE))))))
    return T.seq_cat(seqe((shown(at(ZERO)),)), body)


def sum_len(parts):
    r = ZERO
    for p in parts:
        r = add(r, num(seq_len(p)))
    return r


def pick(parts, j):
    a, b = parts
    n = num(seq_len(a))
    return T.ite(cmp_gt(sub(n, j)), seq_at(a, j), seq_at(b, sub(j, n)))


def outcome(rep, key, run, desk, got, want, pre, fn):
    """Compares with the text and result demanded; returns the number of operations that can fail."""
    k = desk.faults
    key += '/clean' if k is None else '/any failure' if k == 'any' else '/failure %d' % k
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=sizes)
    if k is None:
        rep.equal(key + '/result', run, got, ok(UNIT), pre=pre, sampler=sizes, rule='succeeds when nothing fails')
        rep.equal(key + '/file', run, desk.get(run, NAME), chars('a.csv'), pre=pre, sampler=sizes, rule='creates the named file')
        rep.equal(key + '/text', run, desk.get(run, TEXT), want, pre=pre, sampler=sizes, rule='every value once, in row order')
        n, pending = desk.get(run, COUNT), desk.get(run, PENDING)
        n = T.as_int(n) if n.op == 'poly' else None
        return n if n is None or pending is FALSE else n + 1
    if k != 'any':
        rep.equal(key + '/reports', run, got, err(adt(ERROR, 0, const(k))), pre=pre, sampler=sizes,
                  rule='returns the error of the failing operation')
        return None
    failed, first, count, pending = [desk.get(run, x) for x in (FAILED, FIRST, COUNT, PENDING)]
    if any(x.op == 'top' for x in (failed, first, count, pending)):
        rep.undecided(key + '/reports', fn, 'returns the error of the first failing operation', run.failed or 'state of the file')
        return None
    late = band(pending, desk.fails(num(count)))
    first = nite(failed, num(first), num(count))
    want = ite(bor(failed, late), err(adt(ERROR, 0, first)), ok(UNIT))
    rep.equal(key + '/reports', run, got, want, pre=pre, sampler=sizes, rule='returns the error of the first failing operation')


def matrix_csv(rep, dims, faults):
    r, c = dims
    prog = rep.prog
    f = inherent(prog, 'Matrix', 'to_csv')
    R, C = size(r, 'R'), size(c, 'C')
    pre = (cmp_gt(C),) if c is None else ()
    el = gen_elem('A')
    run = Run(prog)
    desk = Desk(run, faults)
    m = run.cell(matrix(prog, R, C, el))
    got = run.call(f, [m, chars('a.csv')], pre=pre)
    rep.note_run(run)
    key = 'Matrix::to_csv/%s' % ('any' if r is None else '%dx%d' % (r, c))
    if c is None:
        row = lambda i: T.seq_cat(T.seq_repeat_cat(C, const(2), lambda j: seqe((shown(el(add(mul(i, C), j))), const(44)))), chars('\n'))
    else:
        row = lambda i: seqe(tuple(x for j in range(c) for x in (shown(el(add(mul(i, C), const(j)))), const(44))) + (const(10),))
    rows = R if c != 0 else ZERO
    return outcome(rep, key, run, desk, got, lines(rows, add(mul(const(2), C), ONE), row, 0 if c == 0 else r), pre, f)


def dataset_csv(rep, dims, faults):
    n, a, b = dims
    prog = rep.prog
    f = inherent(prog, 'Dataset', 'to_csv')
    N, A, B = size(n, 'N'), size(a, 'A'), size(b, 'B')
    pre = (cmp_gt(A),) if a is None else ()
    x = lambda i, j: app('X', i, j, sort='c')
    y = lambda i, j: app('Y', i, j, sort='c')
    run = Run(prog)
    desk = Desk(run, faults)
    if n is None:
        xs, ys = seql(N, lambda i: io_scalar(prog, seql(A, lambda j: x(i, j)))), seql(N, lambda i: io_scalar(prog, seql(B, lambda j: y(i, j))))
        row = lambda i: T.seq_cat(joined((seql(A, lambda j: x(i, j)), seql(B, lambda j: y(i, j)))), chars('\n'))
    else:
        cs = [const(k) for k in range(4)]
        xs = seqe(tuple(io_scalar(prog, seqe(tuple(x(i, j) for j in cs[:a]))) for i in cs[:n]))
        ys = seqe(tuple(io_scalar(prog, seqe(tuple(y(i, j) for j in cs[:b]))) for i in cs[:n]))

        def row(i):
            out = []
            for v in [x(i, j) for j in cs[:a]] + [y(i, j) for j in cs[:b]]:
                out += ([const(44)] if out else []) + [shown(v)]
            return seqe(tuple(out) + (const(10),))
    d = run.cell(struct(prog, 'Dataset', inputs=xs, target=ys))
    got = run.call(f, [d, chars('a.csv')], pre=pre)
    rep.note_run(run)
    key = 'Dataset::to_csv/%s' % ('any' if n is None else '%dx(%d+%d)' % (n, a, b))
    return outcome(rep, key, run, desk, got, lines(N, mul(const(2), add(A, B)), row, n), pre, f)


def number(rep, dims, faults):
    """Text of one complex number."""
    prog = rep.prog
    f = trait_fn(prog, 'Display', 'fmt', dims[0])
    run = Run(prog)
    desk = Desk(run, faults)
    z, x, y = cplx(prog, dims[0], 'z')
    got = run.call(f, [run.cell(z), run.cell(adt(FILE, 0))])
    rep.note_run(run)
    key = dims[0] + '/text'
    rep.never_panics(key + '/no-panic', run, sampler=sizes)
    if faults is None:
        want = T.seq_cat(chars('['), seqe((shown(x),)), chars(' '), seqe((shown(y),)), chars(']'))
        rep.equal(key, run, desk.get(run, TEXT), want, sampler=sizes, rule='real part, then imaginary part')
        rep.equal(key + '/result', run, got, ok(UNIT), sampler=sizes, rule='succeeds when nothing fails')
        n = desk.get(run, COUNT)
        return T.as_int(n) if n.op == 'poly' else None
    rep.equal(key + '/failure %d' % faults, run, run.variant(got, 1), TRUE, sampler=sizes, rule='reports a failing write')
