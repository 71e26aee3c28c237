from files import *
from rules_c01 import PREC
from rules_c02 import guarded

PIX = const(784)


def sampler(i):
    return {'maxdim': 3, 'wide': ('m', 'nd', 'nl'), 'ranges': {'nd': (0, 4), 'nl': (0, 4), 'xd': (0, 783), 'm': (0, 2), 'B': (0, 4), 'img': (0, 255),
                                    'lab': (0, 9), 'pd': (0, 1600), 'pl': (0, 4), 'short': (0, 800)}}


def check(rep):
    for ty, fl in PREC:
        for elem, name in ((fl, 'minist_as_batch'), (ty, 'minist_as_complex_batch')):
            guarded(rep, batch, rep, name, elem, None)
            guarded(rep, after_end, rep, name, elem)
            guarded(rep, last, rep, name, elem)
            guarded(rep, faults, rep, name, elem, None)
    for elem, name in ((PREC[0][1], 'minist_as_batch'), (PREC[0][0], 'minist_as_complex_batch')):
        for B in (0, 1, 2, 3):
            guarded(rep, batch, rep, name, elem, B)
            if B:
                guarded(rep, faults, rep, name, elem, B)


def elem_type(prog, name):
    if name in ('f32', 'f64'):
        return {'k': 'prim', 'n': name}
    return {'k': 'adt', 'p': adt_path(prog, name), 'a': []}


class Files:
    """Image file with nd complete records and xd further bytes, label file with nl records."""

    def __init__(self, prog, first, m, faulty=False):
        self.nd, self.nl, xd = app('nd', sort='i'), app('nl', sort='i'), app('xd', sort='i')
        self.m = m
        self.disk = Disk(prog, faulty)
        self.img = lambda i: app('img', i, sort='i')
        self.lab = lambda i: T.f_mod(app('lab', i, sort='i'), const(10))
        pos = (lambda h, w: ZERO if first else add(const(h), mul(const(w), m)))
        self.d = self.disk.file(add(const(16), add(mul(PIX, self.nd), xd)), self.img, pos(16, 784))
        self.l = self.disk.file(add(const(8), self.nl), self.lab, pos(8, 1))
        self.t = ZERO if first else add(const(8), m)
        self.pre = (cmp_ge(sub(const(783), xd)), cmp_ge(sub(self.nd, m)), cmp_ge(sub(self.nl, m)))

    def point(self, prog, elem, k):
        """Input and target of the k-th record."""
        if elem in ('f32', 'f64'):
            val = lambda x: x
        else:
            p = adt_path(prog, elem)
            val = lambda x: adt(p, 0, x, ZERO)
        px = lambda j: val(div(self.img(add(const(16), add(mul(PIX, k), j))), const(255)))
        image = struct(prog, 'Matrix', body=seql(PIX, px), shape=seqe((const(28), const(28))), capacity=seqe((const(28), const(28))))
        label = self.lab(add(const(8), k))
        return (io_matrix(prog, seqe((image,))), io_scalar(prog, seql(const(10), lambda i: val(nite(cmp_eq(i, label), ONE, ZERO)))))

    def points(self, prog, elem, start, n):
        return struct(prog, 'Dataset', inputs=seql(n, lambda i: self.point(prog, elem, add(start, i))[0]),
                      target=seql(n, lambda i: self.point(prog, elem, add(start, i))[1]))


def call(rep, run, f, args, **kw):
    r = run.call(f, args, **kw)
    rep.note_run(run)
    return r if r is not None else top('never returns')


def cases(fs, m, B):
    """What ends the batch, and the number of points."""
    nd, nl = sub(fs.nd, m), sub(fs.nl, m)
    return (('full', (cmp_ge(sub(nd, B)), cmp_ge(sub(nl, B))), B),
            ('images end', (cmp_gt(sub(B, nd)), cmp_ge(sub(nl, nd))), nd),
            ('labels end', (cmp_gt(sub(B, nl)), cmp_gt(sub(nd, nl))), nl))


def batch(rep, name, elem, size):
    prog = rep.prog
    f = inherent(prog, 'Dataset', name)
    for first in (True, False):
        m = ZERO if first else app('m', sort='i')
        fs = Files(prog, first, m)
        B = app('B', sort='i') if size is None else const(size)
        for case, cond, n in cases(fs, m, B):
            with assume(*(fs.pre + cond)):
                if inconsistent():
                    continue
            pre = fs.pre + cond + (cmp_gt(sub(const(60000), add(m, B))),)
            run = Run(prog, contracts=fs.disk.contracts())
            d, l, t = run.cell(fs.d), run.cell(fs.l), run.cell(fs.t)
            got = call(rep, run, f, [d, l, B, t], tyenv={f['gen'][0]: elem_type(prog, elem)}, pre=pre)
            key = '%s/%s/%s/%s/%s' % (name, elem, 'first' if first else 'later', 'any' if size is None else size, case)
            rep.never_panics(key + '/no-panic', run, pre=pre, sampler=sampler)
            rep.equal(key + '/points', run, got, fs.points(prog, elem, m, n), pre=pre, sampler=sampler,
                      rule='the next complete points in file order')
            rep.equal(key + '/tracker', run, run.get(t), add(const(8), add(m, n)), pre=pre, sampler=sampler,
                      rule='advances by the headers and one per point')
            if case != 'full':
                continue
            for nm, c, h, w in (('images', d, 16, 784), ('labels', l, 8, 1)):
                pos = run.I.get(run.get(c), ('f', 1))
                rep.equal('%s/%s' % (key, nm), run, pos, add(const(h), mul(const(w), add(m, n))), pre=pre, sampler=sampler,
                          rule='the file is left at the next record')


def after_end(rep, name, elem):
    """Once a file has ended, a further call returns nothing and counts nothing."""
    prog = rep.prog
    f = inherent(prog, 'Dataset', name)
    for first in (True, False):
        m = ZERO if first else app('m', sort='i')
        fs = Files(prog, first, m)
        B, C = app('B', sort='i'), app('C', sort='i')
        for case, cond, n in cases(fs, m, B)[1:]:
            pre = fs.pre + cond + (cmp_gt(sub(const(60000), add(m, add(B, C)))),)
            run = Run(prog, contracts=fs.disk.contracts())
            d, l, t = run.cell(fs.d), run.cell(fs.l), run.cell(fs.t)
            env = {f['gen'][0]: elem_type(prog, elem)}
            call(rep, run, f, [d, l, B, t], tyenv=env, pre=pre)
            got = call(rep, run, f, [d, l, C, t], tyenv=env, pre=pre)
            key = '%s/%s/%s/after %s' % (name, elem, 'first' if first else 'later', case)
            rep.never_panics(key + '/no-panic', run, pre=pre, sampler=sampler)
            rep.equal(key + '/points', run, got, struct(prog, 'Dataset', inputs=seqe(()), target=seqe(())), pre=pre, sampler=sampler,
                      rule='no further points')
            rep.equal(key + '/tracker', run, run.get(t), add(const(8), add(m, n)), pre=pre, sampler=sampler, rule='one per point')


def faults(rep, name, elem, size):
    """A record that cannot be read for another reason than the end of the file."""
    prog = rep.prog
    f = inherent(prog, 'Dataset', name)
    for first in (True, False):
        m = ZERO if first else app('m', sort='i')
        fs = Files(prog, first, m, faulty=True)
        B = app('B', sort='i') if size is None else const(size)
        for case, cond, n in cases(fs, m, B)[1:]:
            pre = fs.pre + cond + (cmp_gt(sub(const(60000), add(m, B))),)
            run = Run(prog, contracts=fs.disk.contracts())
            d, l, t = run.cell(fs.d), run.cell(fs.l), run.cell(fs.t)
            got = call(rep, run, f, [d, l, B, t], tyenv={f['gen'][0]: elem_type(prog, elem)}, pre=pre)
            key = '%s/%s/%s/%s/fault where %s' % (name, elem, 'first' if first else 'later', 'any' if size is None else size, case)
            rep.equal(key, run, got, fs.points(prog, elem, m, n), pre=pre, sampler=sampler, may_panic=True,
                      rule='no partial, repeated or invented point after a failed read')


def last(rep, name, elem):
    """The batch that ends with the last training point."""
    prog = rep.prog
    f = inherent(prog, 'Dataset', name)
    m = app('m', sort='i')
    fs = Files(prog, False, m)
    B = sub(const(60000), m)
    pre = fs.pre + (cmp_ge(B), cmp_ge(sub(fs.nd, const(60000))), cmp_ge(sub(fs.nl, const(60000))))
    run = Run(prog, contracts=fs.disk.contracts())
    d, l, t = run.cell(fs.d), run.cell(fs.l), run.cell(fs.t)
    got = call(rep, run, f, [d, l, B, t], tyenv={f['gen'][0]: elem_type(prog, elem)}, pre=pre)
    key = '%s/%s/last' % (name, elem)
    big = lambda i: {'maxdim': 3, 'ranges': {'m': (59997, 60000), 'nd': (60000, 60004), 'nl': (60000, 60004), 'xd': (0, 783)}}
    rep.never_panics(key + '/no-panic', run, pre=pre, sampler=big)
    rep.equal(key + '/points', run, got, fs.points(prog, elem, m, B), pre=pre, sampler=big, rule='the next complete points in file order')
    rep.equal(key + '/tracker', run, run.get(t), const(60008), pre=pre, sampler=big, rule='one per point')
