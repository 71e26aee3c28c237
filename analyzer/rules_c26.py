from mats import *
from rules_c02 import guarded
from rules_c24 import part

SIZES = (0, 1, 2, 3, 4, 5)
RANDOM = 'math::random::'


def sampler(i):
    return {'maxdim': 3, 'unit': ('rnd',), 'ranges': {'TR': (0, 50), 'TS': (1000, 1050), 'TS2': (2000, 2050), 'TR2': (3000, 3050), 'S': (0, 5),
                                                      'B': (0, 2), 'rndi': (0, 2)}}


def draw(I, st, a, c, at):
    """The next value of the stream a seed stands for."""
    s = num(I.read_ref(st, a[0]))
    I.write_ref(st, a[0], add(s, ONE))
    return app('rnd', s)


def draw_int(value):
    def h(I, st, a, c, at):
        s = num(I.read_ref(st, a[0]))
        I.write_ref(st, a[0], add(s, ONE))
        return T.f_mod(app('rndi', s, sort='i') if value is None else const(value), num(a[1]))
    return h


class Batch:
    """One call; waves - 1 is what the integer generator yields (any number when not given)."""

    def __init__(self, rep, samples, batch, waves=None, noise=None, seeds=('TR', 'TS')):
        prog = rep.prog
        self.f = inherent(prog, 'Dataset', 'signal_reconstruction')
        self.run = Run(prog, contracts={RANDOM + 'lcgf32': draw, RANDOM + 'lcgf64': draw,
                                        RANDOM + 'lcgi': draw_int(None if waves is None else waves - 1)})
        self.noise = app('theta') if noise is None else noise
        tr, te = [self.run.cell(app(x, sort='i')) for x in seeds]
        r = self.run.call(self.f, [samples, batch, self.noise, tr, te])
        rep.note_run(self.run)
        self.sets = [part(r, k) if r is not None else top('never returns') for k in (0, 1)]
        self.prog = prog

    def seq(self, k, fl):
        return field(self.prog, self.sets[k], fl)

    def values(self, k, fl, b):
        """Samples of the b-th point."""
        s = self.seq(k, fl)
        return self.scalars(seq_at(s, num(b))) if isseq(s) else s

    def scalars(self, v):
        if v.op == 'ite':
            return ite(v.a[0], self.scalars(v.a[1]), self.scalars(v.a[2]))
        if v.op == 'adt' and v.a[1] == variant(self.prog, 'IOType', 'Scalar'):
            return v.a[2][0]
        return v if v.op in ('top', 'undef') else top('not a vector of samples')

    def sample(self, k, fl, b, j):
        s = self.values(k, fl, b)
        if not isseq(s):
            return top('not a vector of samples'), ZERO
        v = seq_at(s, const(j))
        return num(self.run.I.get(v, ('f', 0))), num(self.run.I.get(v, ('f', 1)))


NAMES = ('train', 'test')
FIELDS = (('inputs', 'input'), ('target', 'target'))


def check(rep):
    guarded(rep, shapes, rep, None, None)
    guarded(rep, apart, rep, None, None)
    for s in SIZES:
        for b in (0, 1, 2):
            guarded(rep, shapes, rep, s, b)
        guarded(rep, apart, rep, s, 2)
        if s:
            guarded(rep, noise, rep, s)
    for w in (1, 2, 3):
        for s in SIZES[1:]:
            guarded(rep, normalised, rep, s, w)
    for w in (1, 2):
        guarded(rep, phasors, rep, w)


def dim(k, name):
    return sym(name) if k is None else const(k)


def label(s, b):
    return '%s/%s' % ('any' if s is None else '%d samples' % s, 'any' if b is None else '%d points' % b)


def shapes(rep, s, b):
    S, B = dim(s, 'S'), dim(b, 'B')
    x = Batch(rep, S, B)
    key = label(s, b)
    rep.never_panics(key + '/no-panic', x.run, sampler=sampler)
    for k, nm in enumerate(NAMES):
        for fl, what in FIELDS:
            q = x.seq(k, fl)
            n = seq_len(q) if isseq(q) else top('not a list of points')
            rep.equal('%s/%s/%s points' % (key, nm, what), x.run, n, B, sampler=sampler, rule='one point per batch entry')
            if b is None:
                i = fresh('q', B)
                each = [('each', atom(i))]
            else:
                each = [(str(i), const(i)) for i in range(b)]
            for j, i in each:
                v = x.values(k, fl, i)
                n = seq_len(v) if isseq(v) else v
                rep.equal('%s/%s/%s length %s' % (key, nm, what, j), x.run, n, S, sampler=sampler, rule='the requested number of samples')


def apart(rep, s, b):
    """A set does not change with the seed of the other one."""
    S, B = dim(s, 'S'), dim(b, 'B')
    x, y = Batch(rep, S, B), Batch(rep, S, B, seeds=('TR', 'TS2'))
    z = Batch(rep, S, B, seeds=('TR2', 'TS'))
    key = label(s, b)
    for k, o in ((0, y), (1, z)):
        for fl, what in FIELDS:
            rep.equal('%s/%s %ss' % (key, NAMES[k], what), x.run, x.seq(k, fl), o.seq(k, fl), sampler=sampler,
                      rule='depends on its own seed only')


def norm2(p):
    return add(mul(p[0], p[0]), mul(p[1], p[1]))


def normalised(rep, s, w):
    """The largest modulus of a target is 1."""
    x = Batch(rep, const(s), ONE, waves=w)
    for k, nm in enumerate(NAMES):
        ns = [norm2(x.sample(k, 'target', ZERO, j)) for j in range(s)]
        if any(n.op == 'top' for n in ns):
            rep.undecided('%d samples/%d waves/%s/normalised' % (s, w, nm), x.f, 'largest modulus is 1', 'no samples')
            continue
        m = ns[0]
        for n in ns[1:]:
            m = nite(T.cmp_gt(sub(n, m), 'r'), n, m)
        rep.equal('%d samples/%d waves/%s/normalised' % (s, w, nm), x.run, m, ONE, sampler=sampler, rule='largest modulus is 1')


def cmul(a, b):
    return sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0]))


def csub(a, b):
    return sub(a[0], b[0]), sub(a[1], b[1])


def phasors(rep, w):
    """Equally spaced samples of w rotating phasors: the Hankel determinant of order w + 1 vanishes."""
    n = 2 * w + 1
    x = Batch(rep, const(n), ONE, waves=w)
    for k, nm in enumerate(NAMES):
        t = [x.sample(k, 'target', ZERO, j) for j in range(n)]
        if w == 1:
            d = csub(cmul(t[0], t[2]), cmul(t[1], t[1]))
        else:
            det2 = lambda a, b, c, e: csub(cmul(a, e), cmul(b, c))
            d = csub(cmul(t[0], det2(t[2], t[3], t[3], t[4])), cmul(t[1], det2(t[1], t[3], t[2], t[4])))
            e = cmul(t[2], det2(t[1], t[2], t[2], t[3]))
            d = (add(d[0], e[0]), add(d[1], e[1]))
        rep.equal('%d waves/%s/phasors' % (w, nm), x.run, mk('tup', *d), mk('tup', ZERO, ZERO), sampler=sampler, rule='sum of %d phasors' % w)


def noise(rep, s):
    """Without noise the input is the target; otherwise every sample has its own noise."""
    x = Batch(rep, const(s), ONE, waves=1, noise=ZERO)
    y = Batch(rep, const(s), ONE, waves=1)
    for k, nm in enumerate(NAMES):
        key = '%d samples/%s' % (s, nm)
        rep.equal(key + '/clean', x.run, x.values(k, 'inputs', ZERO), x.values(k, 'target', ZERO), sampler=sampler,
                  rule='input is the target when the noise level is 0')
        rep.equal(key + '/same target', y.run, y.values(k, 'target', ZERO), x.values(k, 'target', ZERO), sampler=sampler,
                  rule='the target has no noise')
        for fl, what in FIELDS:
            rep.finite('%s/%s finite' % (key, what), y.run, y.values(k, fl, ZERO), sampler=lambda i: dict(sampler(i), ends=True),
                       rule='every sample is a finite number, whatever the generator yields between 0 and 1')
        e = [csub(y.sample(k, 'inputs', ZERO, j), y.sample(k, 'target', ZERO, j)) for j in range(s)]
        for j in range(s):
            rep.differs('%s/noise %d' % (key, j), y.run, mk('tup', *e[j]), mk('tup', ZERO, ZERO), sampler=sampler,
                        rule='every sample has a noise term')
            if j:
                rep.differs('%s/noise %d and %d' % (key, j - 1, j), y.run, mk('tup', *e[j]), mk('tup', *e[j - 1]), sampler=sampler,
                            rule='every sample has its own noise term')
