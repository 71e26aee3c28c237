from nets import *
from rules_c02 import guarded

MAXN = 4


def sizes(i):
    return {'maxdim': 2 + i % 3}


def check(rep):
    guarded(rep, empty, rep)
    guarded(rep, insert, rep)
    guarded(rep, history, rep)
    guarded(rep, access, rep)
    guarded(rep, wrappers, rep)


def point(prog, name):
    """i -> the i-th input or target, opaque."""
    return lambda *i: mk('obj', name, i, tykey(io_ty(prog)))


def dataset(prog, n):
    return struct(prog, 'Dataset', inputs=seql(n, point(prog, 'X')), target=seql(n, point(prog, 'Y')))


def method(rep, name):
    return inherent(rep.prog, 'Dataset', name)


def call(rep, run, f, args, **kw):
    r = run.call(f, args, **kw)
    rep.note_run(run)
    return r


def empty(rep):
    prog = rep.prog
    run = Run(prog)
    d = call(rep, run, method(rep, 'new'), [])
    rep.never_panics('new/no-panic', run)
    c = run.cell(d)
    rep.equal('new', run, call(rep, run, method(rep, 'get_n_points'), [c]), ZERO, rule='a new data set is empty', fn=method(rep, 'new'))


def insert(rep):
    """Inserting after any number of points: the new one is last, the others stay."""
    prog = rep.prog
    n = sym('n')
    x, y = mk('obj', 'x', (), tykey(io_ty(prog))), mk('obj', 'y', (), tykey(io_ty(prog)))
    run = Run(prog)
    c = run.cell(dataset(prog, n))
    call(rep, run, method(rep, 'add_point'), [c, mk('tup', x, y)])
    rep.never_panics('add_point/no-panic', run, sampler=sizes)
    d = run.get(c)
    for fl, old, new in (('inputs', 'X', x), ('target', 'Y', y)):
        want = seql(add(n, ONE), lambda i: ite(cmp_eq(i, n), new, point(prog, old)(i)))
        rep.equal('add_point/%s' % fl, run, field(prog, d, fl), want, sampler=sizes, rule='appends the point and keeps the others')


def views(rep, run, c, key, n, x, y, fn=None):
    """Everything that can be read from a data set."""
    prog = rep.prog
    rep.equal(key + '/count', run, call(rep, run, method(rep, 'get_n_points'), [c]), n, sampler=sizes, rule='number of points', fn=fn)
    it = call(rep, run, method(rep, 'points_as_iter'), [c])
    rep.never_panics(key + '/points_as_iter/no-panic', run, sampler=sizes)
    for k, w, nm in ((0, x, 'inputs'), (1, y, 'targets')):
        rep.equal('%s/points_as_iter/%s' % (key, nm), run, iter_content(run, part(it, k)), all_of(n, w), sampler=sizes,
                  rule='every %s in order' % nm[:-1], fn=fn)


def all_of(n, w):
    c = T.as_int(num(n))
    return seql(n, w) if c is None else seqe(tuple(w(const(i)) for i in range(c)))


def part(v, k):
    return v.a[k] if v is not None and v.op == 'tup' and len(v.a) == 2 else top('not a pair')


def history(rep):
    """Up to MAXN insertions into a new data set, then every way to read it."""
    prog = rep.prog
    for n in range(MAXN + 1):
        run = Run(prog)
        c = run.cell(call(rep, run, method(rep, 'new'), []))
        for i in range(n):
            call(rep, run, method(rep, 'add_point'), [c, mk('tup', point(prog, 'X')(const(i)), point(prog, 'Y')(const(i)))])
        views(rep, run, c, 'history/%d' % n, const(n), point(prog, 'X'), point(prog, 'Y'))
        for i in range(n):
            got = content(run, call(rep, run, method(rep, 'get_point'), [c, const(i)]))
            rep.equal('history/%d/get_point/%d' % (n, i), run, got,
                      mk('tup', point(prog, 'X')(const(i)), point(prog, 'Y')(const(i))), rule='the i-th inserted pair')
            rep.never_panics('history/%d/get_point/%d/no-panic' % (n, i), run)


def access(rep):
    prog = rep.prog
    n, i = sym('n'), sym('i')
    inside = (cmp_gt(sub(n, i)),)
    run = Run(prog)
    c = run.cell(dataset(prog, n))
    views(rep, run, c, 'any', n, point(prog, 'X'), point(prog, 'Y'))
    got = content(run, call(rep, run, method(rep, 'get_point'), [c, i], pre=inside))
    rep.never_panics('get_point/no-panic', run, pre=inside, sampler=sizes)
    rep.equal('get_point', run, got, mk('tup', point(prog, 'X')(i), point(prog, 'Y')(i)), pre=inside, sampler=sizes,
              rule='input and target with the same index')
    run = Run(prog)
    c = run.cell(dataset(prog, n))
    call(rep, run, method(rep, 'get_point'), [c, i], pre=(cmp_ge(sub(i, n)),))
    rep.holds('get_point/outside', run, run.panic_cond() if not run.failed else top(run.failed), pre=(cmp_ge(sub(i, n)),),
              sampler=sizes, rule='no point is invented for an index outside')
    run = Run(prog)
    it = call(rep, run, method(rep, 'points_into_iter'), [dataset(prog, n)])
    rep.never_panics('points_into_iter/no-panic', run, sampler=sizes)
    for k, w, nm in ((0, 'X', 'inputs'), (1, 'Y', 'targets')):
        rep.equal('points_into_iter/%s' % nm, run, iter_content(run, part(it, k)), seql(n, point(prog, w)), sampler=sizes,
                  rule='every %s in order' % nm[:-1])
    for f, recv in (('get_n_points', 1), ('get_point', 1), ('points_as_iter', 1)):
        run = Run(prog)
        c = run.cell(dataset(prog, n))
        call(rep, run, method(rep, f), [c] + ([i] if f == 'get_point' else []), pre=inside)
        rep.equal('%s/unchanged' % f, run, run.get(c), dataset(prog, n), pre=inside, sampler=sizes, rule='reading changes nothing')


def wrappers(rep):
    prog = rep.prog
    n = sym('n')
    vec = seql(n, gen_elem('x'))
    mty = tykey({'k': 'adt', 'p': adt_path(prog, 'Matrix'), 'a': [{'k': 'param', 'n': 'T'}]})
    mps = seql(n, lambda i: mk('obj', 'M', (i,), mty))
    S, M = io_scalar(prog, vec), io_matrix(prog, mps)
    bad = err(enum(prog, 'ReleaseError', 'InvalidType'))
    for name, arg, want in (('release_vec', S, ok(vec)), ('release_vec', M, bad), ('release_maps', M, ok(mps)), ('release_maps', S, bad)):
        key = '%s/%s' % (name, 'vector' if arg is S else 'maps')
        run = Run(prog)
        got = call(rep, run, inherent(prog, 'IOType', name), [arg])
        rep.never_panics(key + '/no-panic', run, sampler=sizes)
        rep.equal(key, run, got, want, sampler=sizes, rule='gives back what was wrapped, refuses the other kind')
    for name in ('as_slice', 'as_mut', 'to_vec'):
        f = inherent(prog, 'IOType', name)
        run = Run(prog)
        c = run.cell(S)
        got = content(run, call(rep, run, f, [c]))
        rep.never_panics(name + '/vector/no-panic', run, sampler=sizes)
        rep.equal(name + '/vector', run, got, vec, sampler=sizes, rule='the wrapped components')
        rep.equal(name + '/vector/unchanged', run, run.get(c), S, sampler=sizes, rule='reading changes nothing')
        run = Run(prog)
        call(rep, run, f, [run.cell(M)])
        rep.holds(name + '/maps', run, run.panic_cond() if not run.failed else top(run.failed), sampler=sizes,
                  rule='refuses feature maps')
    run = Run(prog)
    c = run.cell(S)
    r = call(rep, run, inherent(prog, 'IOType', 'as_mut'), [c])
    writes(rep, run, c, r, n)


def writes(rep, run, c, r, n):
    """Writing through the mutable slice reaches the wrapped vector."""
    prog = rep.prog
    try:
        new = seql(n, gen_elem('w'))
        run.I.write_ref(run.st, r, new)
        got = run.get(c)
    except (Unsupported, AttributeError, KeyError) as e:
        got = top(str(e))
    rep.equal('as_mut/writes', run, got, io_scalar(prog, new), sampler=sizes, rule='the slice is the wrapped vector itself')
