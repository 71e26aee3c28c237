"""Hash-consed value terms with algebraic normal forms.

Numbers (machine integers, reals, elements of an abstract commutative ring with
conjugation) are Laurent polynomials over atoms.  Sequences are lambdas over an
index, sums are binders in linear normal form, conditions are normalised
comparisons.  Two terms built from the same mathematical expression are the same
object, so equality of normal forms is identity.
"""
from fractions import Fraction
import itertools

_intern = {}
_count = [0]


class Node:
    __slots__ = ('op', 'a', 'id', 'h', 'fv', 'fn', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _scan(x, st):
    if isinstance(x, Node):
        if x.h > st[0]:
            st[0] = x.h
        if x.fv:
            st[1] |= x.fv
        if x.fn:
            st[2] |= x.fn
    elif isinstance(x, tuple):
        for y in x:
            _scan(y, st)


EMPTY = frozenset()
_fvsets = {EMPTY: EMPTY}


def _share(s):
    f = frozenset(s)
    return _fvsets.setdefault(f, f)


def mk(op, *a):
    k = (op, a)
    n = _intern.get(k)
    if n is not None:
        return n
    n = Node()
    n.op = op
    n.a = a
    n.id = _count[0]
    _count[0] += 1
    st = [0, set(), set()]
    for x in a:
        _scan(x, st)
    n.h = st[0]
    if op == 'var':
        st[1].add(a[0])
    elif op == 'app' or op == 'obj' or op == 'seqphi' or op == 'batom':
        if isinstance(a[0], str) and a[0][:1] in 'φ@':
            st[2].add(a[0].split('.')[0].split('[')[0])
    elif op in BINDERS:
        bound = a[0]
        for b in bound:
            st[1].discard(b)
            hh = int(b[1:])
            if hh > st[0]:
                st[0] = hh
        n.h = st[0]
        if op == 'fold':
            pre = '@%d_' % max(int(b[1:]) for b in bound)
            st[2] = {x for x in st[2] if not x.startswith(pre)}
    n.fv = _share(st[1])
    n.fn = _share(st[2])
    _intern[k] = n
    return n


BINDERS = {'sum', 'seql', 'ex', 'first', 'fold', 'seqf', 'it'}

# --------------------------------------------------------------------------
# variables, facts
# --------------------------------------------------------------------------
_fresh = itertools.count()


class Ctx:
    """Assumptions in force while terms are built."""

    def __init__(self):
        self.facts = []          # boolean nodes known to hold
        self.ranges = {}         # var name -> exclusive upper bound (poly); lower bound 0
        self.factset = set()
        self.caches = {}         # results of prove_ge0 for each set of facts
        self.recache()

    def recache(self):
        if len(self.caches) > 4000:
            self.caches.clear()
        self.cache = self.caches.setdefault(frozenset(self.factset), {})

    def push(self, b):
        """Assume b; returns the number of facts to pop."""
        new = []
        st = [b]
        while st:
            x = st.pop()
            if x.op == 'and':
                st.extend(x.a)
            elif x.op == 'not' and x.a[0].op == 'or':
                st.extend(bnot(y) for y in x.a[0].a)
            elif x is not TRUE and x not in self.factset:
                new.append(x)
        for x in new:
            self.facts.append(x)
            self.factset.add(x)
        if new:
            self.recache()
        return len(new)

    def pop(self, n):
        for _ in range(n):
            x = self.facts.pop()
            self.factset.discard(x)
        if n:
            self.recache()


CTX = Ctx()


class assume:
    def __init__(self, *bs):
        self.bs = bs

    def __enter__(self):
        self.n = 0
        for b in self.bs:
            self.n += CTX.push(b)

    def __exit__(self, *a):
        CTX.pop(self.n)


def fresh(prefix='k', bound=None):
    name = '%s%d' % (prefix, next(_fresh))
    v = mk('var', name)
    if bound is not None:
        CTX.ranges[name] = bound
    return v


def fresh_name(prefix):
    return '%s%d' % (prefix, next(_fresh))


# --------------------------------------------------------------------------
# polynomials
# --------------------------------------------------------------------------

def qnorm(c):
    """Integral coefficients are kept as int."""
    if type(c) is int:
        return c
    return c.numerator if c.denominator == 1 else c


def qdiv(a, b):
    return qnorm(Fraction(a) / b)


def _mkey(t):
    return [(x.id, e) for x, e in t[0]]


def _poly(d):
    """d: dict mono -> int or Fraction.  mono: tuple of (atom, exp) sorted by atom id."""
    items = [(m, qnorm(c)) for m, c in d.items() if c]
    if len(items) > 1:
        items.sort(key=_mkey)
    return mk('poly', *items)


def const(c):
    c = qnorm(c if type(c) is int else Fraction(c))
    return mk('poly', ((), c)) if c else mk('poly')


ZERO = mk('poly')
ONE = const(1)


def atom(n):
    return mk('poly', (((n, 1),), 1))


def num(x):
    if isinstance(x, Node):
        if x.op == 'poly':
            return x
        if x.op == 'ite':
            return nite(x.a[0], num(x.a[1]), num(x.a[2]))
        if x.op in ATOMS:
            return atom(x)
        raise NotNum(x)
    return const(x)


class NotNum(Exception):
    pass


ATOMS = {'app', 'var', 'sum', 'nite', 'polya', 'first', 'prj'}


def is_const(p):
    return p.op == 'poly' and (len(p.a) == 0 or (len(p.a) == 1 and p.a[0][0] == ()))


def cval(p):
    return p.a[0][1] if p.a else 0


def as_int(p):
    """Python int if p is an integer constant, else None."""
    if p.op == 'poly' and is_const(p):
        c = cval(p)
        if c.denominator == 1:
            return int(c)
    return None


def add(*ps):
    d = {}
    for p in ps:
        p = num(p)
        for m, c in p.a:
            d[m] = d.get(m, 0) + c
    if _modinfo and len(d) > 1:
        for m in d:
            for x, e in m:
                if e == 1 and x in _modinfo and d[m]:
                    r = _recombine(d, m, x)
                    if r is not None:
                        return r
    return _poly(d)


_modinfo = {}       # mod atom -> [(fdiv atom, dividend, divisor)]


def _recombine(d, m, x):
    """c*(b*fdiv(a,b) + mod(a,b)) = c*a"""
    i = next(j for j, t in enumerate(m) if t[0] is x)
    rest = _poly({m[:i] + m[i + 1:]: d[m]})
    for q, a, b in _modinfo[x]:
        t = mul(mul(rest, b), atom(q))
        if all(d.get(mm) == c for mm, c in t.a):
            return add(sub(_poly({k: v for k, v in d.items() if k != m}), t), mul(rest, a))
    return None


def scale(p, c):
    if type(c) is not int:
        c = qnorm(Fraction(c))
    if c == 1:
        return p
    return _poly({m: k * c for m, k in num(p).a})


def neg(p):
    return scale(p, -1)


def sub(a, b):
    return add(a, neg(num(b)))


def _special(x, e):
    if x.op == 'app':
        if x.a[0] == 'sqrt' and (e >= 2 or e <= -2):
            return True
        if x.a[0] == 'sin' and e >= 2:
            return True
    elif x.op == 'polya' and e > 0:
        return True
    elif x.op == 'nite' and e >= 2:
        return True
    return False


def _mono_mul(m1, m2):
    """Product of monomials: (mono, extra factor polys)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    extra = None
    for x, e in list(d.items()):
        if e == 0:
            del d[x]
        elif _special(x, e):
            extra = extra or []
            if x.op == 'app' and x.a[0] == 'sqrt':
                q, r = divmod(e, 2) if e > 0 else (-((-e) // 2), -((-e) % 2))
                extra.append((x.a[1][0], q))
                if r:
                    d[x] = r
                else:
                    del d[x]
            elif x.op == 'app' and x.a[0] == 'sin':
                q, r = divmod(e, 2)
                cs = f_cos(x.a[1][0])
                extra.append((sub(ONE, mul(cs, cs)), q))
                if r:
                    d[x] = r
                else:
                    del d[x]
            elif x.op == 'polya':
                extra.append((x.a[0], e))
                del d[x]
            elif x.op == 'nite':
                c, a, b = x.a
                extra.append((nite(c, power(a, e), power(b, e)), 1))
                del d[x]
    return tuple(sorted(d.items(), key=lambda t: t[0].id)), extra


_mulcache = {}


def mul(a, b):
    a = num(a)
    b = num(b)
    if a is ONE:
        return b
    if b is ONE:
        return a
    if not a.a or not b.a:
        return ZERO
    k = (a, b) if a.id <= b.id else (b, a)
    r = _mulcache.get(k)
    if r is not None:
        return r
    d = {}
    rest = []
    for m1, c1 in a.a:
        for m2, c2 in b.a:
            m, extra = _mono_mul(m1, m2)
            c = c1 * c2
            if extra:
                t = _poly({m: c})
                for p, e in extra:
                    t = mul(t, power(p, e))
                rest.append(t)
            else:
                d[m] = d.get(m, 0) + c
    r = _poly(d)
    if rest:
        return add(r, *rest)
    _mulcache[k] = r
    return r


def power(p, e):
    p = num(p)
    if e == 0:
        return ONE
    if e < 0:
        return div(ONE, power(p, -e))
    r = ONE
    while e:
        if e & 1:
            r = mul(r, p)
        p = mul(p, p) if e > 1 else p
        e >>= 1
    return r


def _inv_mono(m, c):
    d = []
    extra = []
    for x, e in m:
        if x.op == 'polya':
            extra.append((x.a[0], -e))
        else:
            d.append((x, -e))
    # sqrt^-1 is fine; sin^-1 is fine
    t = _poly({tuple(d): qdiv(1, c)})
    for p, e in extra:
        t = mul(t, power(p, e)) if e > 0 else mul(t, _poly({((mk('polya', p), e),): Fraction(1)}))
    return t


def div(a, b):
    a = num(a)
    b = num(b)
    if not b.a:
        return mul(a, atom(mk('app', 'inf', ())))
    if len(b.a) == 1:
        return mul(a, _inv_mono(*b.a[0]))
    if a is b:
        return ONE
    q = exact_div(a, b)
    if q is not None:
        return q
    lead = b.a[-1][1]
    b1 = scale(b, qdiv(1, lead))
    # pull out the common monomial
    common = dict(b1.a[0][0])
    for m, _ in b1.a[1:]:
        dm = dict(m)
        common = {x: min(e, dm[x]) for x, e in common.items() if x in dm and min(e, dm[x]) > 0}
        if not common:
            break
    pre = ONE
    if common:
        cm = tuple(sorted(common.items(), key=lambda t: t[0].id))
        inv = _inv_mono(cm, Fraction(1))
        b1 = mul(b1, inv)
        pre = inv
    if len(b1.a) == 1:
        return scale(mul(mul(a, pre), _inv_mono(*b1.a[0])), qdiv(1, lead))
    return scale(mul(mul(a, pre), _poly({((mk('polya', b1), -1),): Fraction(1)})), qdiv(1, lead))


def _mono_div(m, d):
    """m / d with non-negative exponents, or None."""
    dm = dict(m)
    for x, e in d:
        v = dm.get(x, 0) - e
        if v < 0:
            return None
        if v == 0:
            dm.pop(x, None)
        else:
            dm[x] = v
    return tuple(sorted(dm.items(), key=lambda t: t[0].id))


def _deg(m):
    return (sum(e for _, e in m), tuple((-x.id, e) for x, e in m))


def poly_divmod(a, b):
    """Multivariate division of a by b (graded order)."""
    lt = max(b.a, key=lambda t: _deg(t[0]))
    r = ZERO
    q = ZERO
    p = a
    for _ in range(200):
        if not p.a:
            return q, r
        m, c = max(p.a, key=lambda t: _deg(t[0]))
        d = _mono_div(m, lt[0])
        if d is None:
            t = _poly({m: c})
            r = add(r, t)
            p = sub(p, t)
        else:
            t = _poly({d: qdiv(c, lt[1])})
            q = add(q, t)
            p = sub(p, mul(t, b))
    return None, None


def exact_div(a, b):
    for m, _ in a.a + b.a:
        for x, e in m:
            if e < 0 or x.op == 'app' and x.a[0] in ('sqrt', 'sin'):
                return None
    q, r = poly_divmod(a, b)
    if q is not None and not r.a:
        return q
    return None


def clear_den(p):
    """Multiply by all sums that occur as denominators (for zero tests)."""
    for _ in range(20):
        worst = {}
        for m, _c in p.a:
            for x, e in m:
                if x.op == 'polya' and e < 0:
                    worst[x] = min(worst.get(x, 0), e)
        if not worst:
            return p
        d = {}
        parts = []
        for m, c in p.a:
            dm = dict(m)
            f = _ONEP
            t = None
            for x, e in worst.items():
                k = dm.pop(x, 0) - e
                if k:
                    t = power(x.a[0], k) if t is None else mul(t, power(x.a[0], k))
            q = _poly({tuple(sorted(dm.items(), key=lambda z: z[0].id)): c})
            parts.append(q if t is None else mul(q, t))
        p = add(*parts) if parts else ZERO
    return p


_ONEP = ONE


def clear_neg(p):
    """Multiply by atoms with negative exponents too."""
    worst = {}
    for m, _c in p.a:
        for x, e in m:
            if e < 0:
                worst[x] = min(worst.get(x, 0), e)
    for x, e in worst.items():
        p = mul(p, _poly({((x, -e),): Fraction(1)}))
    return p


def is_zero(p):
    if not p.a:
        return True
    q = clear_den(p)
    if not q.a:
        return True
    q = clear_neg(q)
    return not q.a


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------

def app(name, *args, sort='r'):
    return atom(mk('app', name, tuple(args), sort))


def f_sqrt(p):
    p = num(p)
    if is_const(p):
        c = cval(p)
        if c >= 0:
            import math
            n, d = c.numerator, c.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return const(Fraction(rn, rd))
    return app('sqrt', p)


def f_exp(p):
    p = num(p)
    if not p.a:
        return ONE
    r = ONE
    for m, c in p.a:
        if m == ():
            base = app('exp', const(Fraction(1, c.denominator)))
        else:
            base = app('exp', _poly({m: Fraction(1, c.denominator)}))
        r = mul(r, power_atom(base, c.numerator))
    return r


def power_atom(p, e):
    (m, c), = p.a
    (x, k), = m
    return _poly({((x, k * e),): Fraction(1)})


def _sign_norm(p):
    """(sign, p') with canonical sign."""
    p = num(p)
    if p.a and p.a[-1][1] < 0:
        return -1, neg(p)
    return 1, p


def _half_angle(p):
    if len(p.a) == 1 and p.a[0][1] == 2:
        m = p.a[0][0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'atan2':
            return scale(p, Fraction(1, 2))
    return None


def _atan2_of(p):
    if len(p.a) == 1 and p.a[0][1] == 1:
        m = p.a[0][0]
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'atan2':
            return m[0][0].a[1]
    return None


def f_cos(p):
    s, p = _sign_norm(p)
    if not p.a:
        return ONE
    t = _atan2_of(p)
    if t:
        y, x = t
        return div(x, f_sqrt(add(mul(x, x), mul(y, y))))
    h = _half_angle(p)
    if h is not None:
        c = f_cos(h)
        return sub(scale(mul(c, c), 2), ONE)
    return app('cos', p)


def f_sin(p):
    s, p = _sign_norm(p)
    if not p.a:
        return ZERO
    t = _atan2_of(p)
    if t:
        y, x = t
        return scale(div(y, f_sqrt(add(mul(x, x), mul(y, y)))), s)
    h = _half_angle(p)
    if h is not None:
        return scale(mul(f_sin(h), f_cos(h)), 2 * s)
    return scale(app('sin', p), s)


def f_tanh(p):
    e = f_exp(p)
    e2 = mul(e, e)
    return div(sub(e2, ONE), add(e2, ONE))


def f_cosh(p):
    e = f_exp(p)
    return scale(add(e, div(ONE, e)), Fraction(1, 2))


def f_sinh(p):
    e = f_exp(p)
    return scale(sub(e, div(ONE, e)), Fraction(1, 2))


def f_ln(p):
    p = num(p)
    if p is ONE:
        return ZERO
    return app('ln', p)


def f_abs(p):
    s, p = _sign_norm(p)
    if is_const(p):
        return const(abs(cval(p)))
    return app('abs', p)


def f_conj(p):
    p = num(p)
    parts = []
    for m, c in p.a:
        t = const(c)
        for x, e in m:
            t = mul(t, power_mono(_conj_atom(x), e))
        parts.append(t)
    return add(*parts) if parts else ZERO


def power_mono(p, e):
    if len(p.a) == 1 and p.a[0][1] == 1 and len(p.a[0][0]) == 1 and e < 0:
        (x, k), = p.a[0][0]
        return _poly({((x, k * e),): Fraction(1)})
    return power(p, e)


REAL_FUNCS = {'exp', 'ln', 'sqrt', 'cos', 'sin', 'abs', 'fdiv', 'mod', 'min', 'max', 'atan2', 'trunc'}


def _conj_atom(x):
    if x.op == 'app':
        if x.a[0] == 'conj':
            return atom(x.a[1][0]) if x.a[1][0].op != 'poly' else x.a[1][0]
        if x.a[2] in ('i', 'r') or x.a[0] in REAL_FUNCS:
            return atom(x)
        return app('conj', x, sort='c')
    if x.op == 'var' or x.op == 'first':
        return atom(x)
    if x.op == 'sum':
        ns, body = x.a[1], x.a[2]
        return _rebuild_sum(x.a[0], ns, f_conj(body))
    if x.op == 'nite':
        return nite(x.a[0], f_conj(x.a[1]), f_conj(x.a[2]))
    if x.op == 'polya':
        return f_conj(x.a[0])
    return app('conj', x, sort='c')


def f_min(a, b):
    a, b = num(a), num(b)
    if a is b:
        return a
    d = sub(b, a)
    if prove_ge0(d):
        return a
    if prove_ge0(neg(d)):
        return b
    if a.id > b.id:
        a, b = b, a
    return app('min', a, b, sort='i')


def f_max(a, b):
    a, b = num(a), num(b)
    if a is b:
        return a
    d = sub(b, a)
    if prove_ge0(d):
        return b
    if prove_ge0(neg(d)):
        return a
    if a.id > b.id:
        a, b = b, a
    return app('max', a, b, sort='i')


def _intcoef(p):
    return all(c.denominator == 1 and all(e >= 0 for _, e in m) for m, c in p.a)


def f_divmod(a, b):
    """Floor division and remainder of integer terms (b assumed positive)."""
    a, b = num(a), num(b)
    ia, ib = as_int(a), as_int(b)
    if ib == 1:
        return a, ZERO
    if ia is not None and ib:
        return const(ia // ib), const(ia % ib)
    if not a.a:
        return ZERO, ZERO
    q0 = ZERO
    r = a
    if b.a:
        if ib is not None:
            qd, rd = {}, {}
            for m, c in a.a:
                if c.denominator == 1:
                    qq, rr = divmod(int(c), ib)
                    if qq:
                        qd[m] = Fraction(qq)
                    if rr:
                        rd[m] = Fraction(rr)
                else:
                    rd[m] = c
            q0, r = _poly(qd), _poly(rd)
        else:
            q1, r1 = poly_divmod(a, b)
            if q1 is not None and _intcoef(q1) and _intcoef(r1):
                q0, r = q1, r1
    # now a = q0*b + r
    if not r.a:
        return q0, ZERO
    for s in (0, -1, 1):
        rr = sub(r, scale(b, s))
        if prove_ge0(rr) and prove_ge0(sub(sub(b, ONE), rr)):
            return add(q0, const(s)), rr
    if not (is_const(r) and False):
        pass
    q = app('fdiv', r, b, sort='i')
    m = app('mod', _mod_inner(r, b), b, sort='i')
    # only split off the quotient part when the remainder is still >= 0
    if q0.a and not prove_ge0(r):
        q = app('fdiv', a, b, sort='i')
        m = app('mod', _mod_inner(a, b), b, sort='i')
        q0 = ZERO
        r = a
    qa, ma = q.a[0][0][0][0], m.a[0][0][0][0]
    l = _modinfo.setdefault(ma, [])
    if all(t[0] is not qa for t in l):
        l.append((qa, r, b))
    return add(q0, q), m


def _mod_inner(r, b):
    """mod(c*mod(x,b)+..., b) = mod(c*x+..., b)."""
    out = []
    for m, c in r.a:
        done = False
        for i, (x, e) in enumerate(m):
            if e == 1 and x.op == 'app' and x.a[0] == 'mod' and x.a[1][1] is b:
                rest = m[:i] + m[i + 1:]
                out.append(mul(_poly({rest: c}), x.a[1][0]))
                done = True
                break
        if not done:
            out.append(_poly({m: c}))
    n = add(*out) if out else ZERO
    return n


def f_div(a, b):
    return f_divmod(a, b)[0]


def f_mod(a, b):
    return f_divmod(a, b)[1]


def ceil_div(a, b):
    q, r = poly_divmod(a, b) if num(b).a else (None, None)
    if q is not None and not r.a and _intcoef(q):
        return q
    return f_div(add(a, sub(b, ONE)), b)


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
TRUE = mk('true')
FALSE = mk('false')


def bconst(x):
    return TRUE if x else FALSE


def cmp_ge(p, sort='i'):
    """p >= 0"""
    p = num(p)
    if is_const(p):
        return bconst(cval(p) >= 0)
    d = _distribute(p, lambda q: cmp_ge(q, sort))
    if d is not None:
        return d
    if sort == 'i':
        p = _int_primitive(p)
        h = _ge_known(p)
        if h is not None:
            return bconst(h)
        p = _radix(p)
        if is_const(p):
            return bconst(cval(p) >= 0)
        h = _ge_known(p)
        if h is not None:
            return bconst(h)
    else:
        p = _pos_primitive(p)
    return _lookup(mk('ge', sort, p))


def _distribute(p, f):
    """Comparison of a conditional: push it into the branches when one of them is decided."""
    x = None
    for m, c in p.a:
        for y, e in m:
            if y.op == 'nite':
                if x is not None and x is not y or e != 1 or len(m) != 1:
                    return None
                x = y
    if x is None:
        return None
    A, B = _split_linear(p, x)
    if A is None:
        return None
    c, a, b = x.a
    h = holds(c)
    if h is not None:
        return f(add(mul(A, a if h else b), B))
    with assume(c):
        ra = f(add(mul(A, a), B))
    with assume(bnot(c)):
        rb = f(add(mul(A, b), B))
    if ra in (TRUE, FALSE) or rb in (TRUE, FALSE):
        return bite(c, ra, rb)
    return None


def _int_primitive(p):
    """p>=0 over integers: divide by the gcd of non-constant coefficients, flooring the constant."""
    import math
    if any(c.denominator != 1 for _, c in p.a):
        return p
    g = 0
    c0 = 0
    for m, c in p.a:
        if m == ():
            c0 = int(c)
        else:
            g = math.gcd(g, int(c))
    if g > 1:
        return _poly({m: (Fraction(c0 // g) if m == () else qdiv(c, g)) for m, c in p.a})
    return p


def _pos_primitive(p):
    lead = abs(p.a[-1][1])
    return scale(p, qdiv(1, lead))


def cmp_gt(p, sort='i'):
    p = num(p)
    if sort == 'i':
        return cmp_ge(sub(p, ONE))
    if is_const(p):
        return bconst(cval(p) > 0)
    d = _distribute(p, lambda q: cmp_gt(q, sort))
    if d is not None:
        return d
    return _lookup(mk('gt', sort, _pos_primitive(p)))


def cmp_eq(a, b, sort='i'):
    p = sub(a, b)
    if is_const(p):
        return bconst(cval(p) == 0)
    d = _distribute(p, lambda q: cmp_eq(q, ZERO, sort))
    if d is not None:
        return d
    if sort == 'i':
        if prove_ge0(sub(p, ONE)) or prove_ge0(sub(neg(p), ONE)):
            return FALSE
        # p = Q*M + R, |R| < M  => p==0 iff Q==0 and R==0 handled by the caller
    s, p = _sign_norm(p)
    p = scale(p, qdiv(1, p.a[-1][1])) if sort != 'i' else _content(p)
    if sort != 'i' and is_zero(p):
        return TRUE
    if sort == 'r':
        # a sum of squares vanishes when every square does, a product when a factor does
        if all(c > 0 and m and all(e > 0 and e % 2 == 0 for _, e in m) for m, c in p.a):
            if len(p.a) > 1:
                return band(*[cmp_eq(_poly({m: c}), ZERO, sort) for m, c in p.a])
        if len(p.a) == 1 and all(e > 0 for _, e in p.a[0][0]):
            m = p.a[0][0]
            if len(m) > 1 or m[0][1] > 1:
                return bor(*[cmp_eq(atom(x), ZERO, sort) for x, _ in m])
            x = m[0][0]
            if x.op == 'app' and x.a[0] == 'sqrt':
                return cmp_eq(x.a[1][0], ZERO, sort)
    return _lookup(mk('eq', sort, p))


def _content(p):
    import math
    if any(c.denominator != 1 for _, c in p.a):
        return p
    g = 0
    for m, c in p.a:
        g = math.gcd(g, int(c))
    return scale(p, Fraction(1, g)) if g > 1 else p


def _lookup(b):
    if b in CTX.factset:
        return TRUE
    if CTX.factset and bnot(b) in CTX.factset:
        return FALSE
    return b


def batom(name, *args):
    return _lookup(mk('batom', name, tuple(args)))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.a[0]
    if b.op == 'ge':
        if b.a[0] == 'i':
            return mk('ge', 'i', _int_primitive(sub(neg(b.a[1]), ONE)))
        return mk('gt', b.a[0], neg(b.a[1]))
    if b.op == 'gt':
        return mk('ge', b.a[0], neg(b.a[1]))
    if b.op == 'and':
        return bor(*[bnot(x) for x in b.a])
    if b.op == 'or':
        return band(*[bnot(x) for x in b.a])
    return mk('not', b)


def _bounds(s, weakest):
    """Of comparisons that differ in a constant only the deciding one is kept; None when two of them contradict each other."""
    ges = [b for b in s if b.op == 'ge' and b.a[0] == 'i']
    if len(ges) < 2:
        return s
    best = {}
    for b in ges:
        key = tuple(t for t in b.a[1].a if t[0] != ())
        c = next((c for m, c in b.a[1].a if m == ()), 0)
        if key in best and (c > best[key][0]) != weakest:
            s.discard(b)
            continue
        if key in best:
            s.discard(best[key][1])
        best[key] = (c, b)
    for key, (c, b) in best.items():
        other = best.get(tuple((m, -x) for m, x in key))
        if other is not None and (c + other[0] >= -1 if weakest else c + other[0] < 0):
            return None
    return s


def band(*bs):
    s = set()
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.op == 'and':
            s.update(b.a)
        else:
            s.add(b)
    for b in s:
        if bnot(b) in s:
            return FALSE
    if len(s) > 1:
        s = _bounds(s, False)
        if s is None:
            return FALSE
    # drop disjunctions that are implied or shorten them
    changed = True
    while changed:
        changed = False
        for b in list(s):
            if b.op == 'or':
                if any(x in s for x in b.a):
                    s.discard(b)
                    changed = True
                    break
                rest = [x for x in b.a if bnot(x) not in s]
                if len(rest) != len(b.a):
                    s.discard(b)
                    r = bor(*rest)
                    if r is FALSE:
                        return FALSE
                    if r.op == 'and':
                        s.update(r.a)
                    elif r is not TRUE:
                        s.add(r)
                    changed = True
                    break
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    for b in s:
        if bnot(b) in s:
            return FALSE
    return mk('and', *sorted(s))


def bor(*bs):
    s = set()
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.op == 'or':
            s.update(b.a)
        else:
            s.add(b)
    for b in s:
        if bnot(b) in s:
            return TRUE
    if len(s) > 1:
        s = _bounds(s, True)
        if s is None:
            return TRUE
    changed = True
    while changed:
        changed = False
        for b in list(s):
            if b.op == 'and':
                if any(x in s for x in b.a):
                    s.discard(b)
                    changed = True
                    break
                rest = [x for x in b.a if bnot(x) not in s]
                if len(rest) != len(b.a):
                    s.discard(b)
                    r = band(*rest)
                    if r is TRUE:
                        return TRUE
                    if r.op == 'or':
                        s.update(r.a)
                    elif r is not FALSE:
                        s.add(r)
                    changed = True
                    break
    # (A and c) or (A and not c) = A
    l = sorted(s)
    for i in range(len(l)):
        for j in range(i):
            x = set(l[i].a) if l[i].op == 'and' else {l[i]}
            y = set(l[j].a) if l[j].op == 'and' else {l[j]}
            dx, dy = x - y, y - x
            if len(dx) == 1 and len(dy) == 1 and bnot(next(iter(dx))) is next(iter(dy)):
                rest = [z for k, z in enumerate(l) if k not in (i, j)]
                return bor(band(*(x & y)), *rest)
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mk('or', *l)


def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))


def biff(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


# --- integer reasoning ----------------------------------------------------

def nonneg_atom(x):
    if x.op == 'var':
        return True
    if x.op == 'app':
        if x.a[0] == 'mod':
            return True
        if x.a[0] == 'fdiv':
            # rounds down: negative for a negative numerator
            return prove_ge0(x.a[1][0], 2)
        if x.a[0] in ('min', 'max'):
            return all(prove_ge0(y, 1) for y in x.a[1])
        return x.a[2] == 'i'
    if x.op == 'first':
        return True
    if x.op == 'sum':
        return nonneg_poly(x.a[2])
    if x.op == 'nite':
        return _nn(x.a[1]) and _nn(x.a[2])
    if x.op == 'prj':
        return x.a[3] == 'i'
    return False


def _nn(p):
    return is_const(p) and cval(p) >= 0 or nonneg_poly(p) or prove_ge0(p, 1)


def nonneg_poly(p):
    return all(c >= 0 and all(e % 2 == 0 or nonneg_atom(x) for x, e in m) for m, c in p.a)


POS = set()     # names of integer symbols declared >= 1
DISCR = {}      # name of a discriminant symbol -> possible values


def is_pos_sym(x):
    return x.op == 'app' and x.a[0] in POS


def upper(x):
    """Inclusive upper bound of an integer atom, if known."""
    if x.op == 'var':
        b = CTX.ranges.get(x.a[0])
        return sub(b, ONE) if b is not None else None
    if x.op == 'app':
        if x.a[0] == 'mod':
            return sub(x.a[1][1], ONE)
        if x.a[0] == 'fdiv':
            ib = as_int(x.a[1][1])
            if ib:
                return None
        if x.a[0] == 'min':
            return x.a[1][0]
    return None


def lower(x):
    if x.op == 'app' and is_pos_sym(x):
        return ONE
    return None


FUEL = 400
_fuel = [None]


def prove_ge0(p, depth=4):
    p = num(p)
    k = (p, depth)
    r = CTX.cache.get(k)
    if r is None:
        first = _fuel[0] is None
        if first:
            _fuel[0] = FUEL
        try:
            if _fuel[0] <= 0:
                return False
            _fuel[0] -= 1
            CTX.cache[k] = False
            r = _prove(p, depth)
            if r or first or _fuel[0] > 0:
                CTX.cache[k] = r
            else:
                del CTX.cache[k]
        finally:
            if first:
                _fuel[0] = None
    return r


def _prove(p, depth):
    if is_const(p):
        return cval(p) >= 0
    # direct: every term non-negative, positive symbols give slack
    if _direct(p):
        return True
    if depth <= 0:
        return False
    # eliminate one bounded atom with a negative occurrence
    cands = []
    for m, c in p.a:
        if c < 0:
            for i, (x, e) in enumerate(m):
                if e == 1:
                    u = upper(x)
                    if u is not None:
                        cands.append(x)
    seen = set()
    for x in cands:
        if x in seen:
            continue
        seen.add(x)
        # p = A*x + B with A's sign uniform negative: minimum at upper(x)
        A, B = _split_linear(p, x)
        if A is None:
            continue
        if nonneg_poly(neg(A)) or (depth > 1 and prove_ge0(neg(A), 1)):
            if prove_ge0(add(mul(A, upper(x)), B), depth - 1):
                return True
        # sign unknown: both ends must hold (linear in x)
        elif prove_ge0(add(mul(A, upper(x)), B), depth - 2) and prove_ge0(B, depth - 2):
            return True
    # common non-negative factor
    body = [(m, c) for m, c in p.a if m != () or c < 0]
    if len(body) > 1 and all(m for m, c in body):
        for x, e in body[0][0]:
            if e == 1 and nonneg_atom(x) and all(any(y is x and f == 1 for y, f in m) for m, c in body):
                q = _poly({tuple(y for y in m if y[0] is not x): c for m, c in body})
                if prove_ge0(q, depth - 1):
                    return True
    # case split on numeric conditionals
    for m, c in p.a:
        for x, e in m:
            if x.op == 'nite' and e == 1:
                A, B = _split_linear(p, x)
                if A is None:
                    continue
                cc, ta, tb = x.a
                with assume(cc):
                    ok = prove_ge0(add(mul(A, ta), B), depth - 1)
                if not ok:
                    return False
                with assume(bnot(cc)):
                    return prove_ge0(add(mul(A, tb), B), depth - 1)
    # floor division: b*(a/b) <= a and >= a-b+1
    for m, c in p.a:
        for x, e in m:
            if x.op == 'app' and x.a[0] == 'fdiv' and e == 1:
                A, B = _split_linear(p, x)
                if A is None:
                    continue
                ia, ib = x.a[1]
                ibv = as_int(ib)
                if is_const(A) and cval(A) == -1 and _intcoef(B):
                    # B - a/b >= 0 iff (B+1)*b > a
                    if prove_ge0(sub(sub(mul(add(B, ONE), ib), ONE), ia), depth - 1):
                        return True
                if ibv:
                    # x <= ia/ib ; x >= (ia-ib+1)/ib
                    if nonneg_poly(neg(A)):
                        if prove_ge0(add(mul(A, ia), scale(B, ibv)), depth - 1):
                            return True
                    elif nonneg_poly(A):
                        if prove_ge0(add(mul(A, sub(ia, const(ibv - 1))), scale(B, ibv)), depth - 1):
                            return True
                else:
                    # A = A1*ib : A*x = A1*(ia - mod(ia, ib))
                    q, r = poly_divmod(A, ib)
                    if q is not None and not r.a:
                        mod = app('mod', _mod_inner(ia, ib), ib, sort='i')
                        if prove_ge0(add(mul(q, sub(ia, mod)), B), depth - 1):
                            return True
                    elif nonneg_poly(neg(A)):
                        # A*x >= A*u where u*ib <= ia... use x*ib <= ia scaled
                        if prove_ge0(add(mul(A, ia), mul(B, ib)), depth - 1):
                            return True
    # use facts
    for f in CTX.facts:
        qs = []
        if f.op == 'ge' and f.a[0] == 'i':
            qs = [f.a[1]]
        elif f.op == 'eq' and f.a[0] == 'i':
            qs = [f.a[1], neg(f.a[1])]
        for q in qs:
            # p - t*q where t cancels a negative term of p
            for m, c in p.a:
                if c < 0:
                    for mq, cq in q.a:
                        if cq < 0 and mq != ():
                            d = _mono_div(m, mq)
                            if d is None or not all(nonneg_atom(x) for x, _ in d):
                                continue
                            t = _poly({d: qdiv(c, cq)})
                            np = sub(p, mul(t, q))
                            if np is not p and len(np.a) <= len(p.a) + len(q.a) and prove_ge0(np, depth - 2):
                                return True
            if not any(c < 0 and m != () for m, c in p.a):
                # only the constant is negative: p - q
                if prove_ge0(sub(p, q), depth - 2):
                    return True
    return False


def _direct(p):
    negc = Fraction(0)
    pos = []
    for m, c in p.a:
        if m == ():
            if c < 0:
                negc = -c
            continue
        if c < 0 or not all(e >= 0 and (e % 2 == 0 or nonneg_atom(x)) for x, e in m):
            return False
        pos.append((m, c))
    if negc == 0:
        return True
    # positive symbols: product of atoms each >= 1 is >= 1
    slack = Fraction(0)
    for m, c in pos:
        if all(is_pos_sym(x) for x, e in m):
            slack += c
    return slack >= negc


def _split_linear(p, x):
    """p = A*x + B; None if not linear."""
    A = {}
    B = {}
    for m, c in p.a:
        k = [i for i, (y, e) in enumerate(m) if y is x]
        if not k:
            B[m] = c
        elif m[k[0]][1] == 1:
            A[m[:k[0]] + m[k[0] + 1:]] = c
        else:
            return None, None
    A, B = _poly(A), _poly(B)
    for q in (A, B):
        if x.op == 'var' and x.a[0] in q.fv:
            return None, None
        if x.op != 'var' and occurs(x, q):
            return None, None
    return A, B


_OCC = {}


def occurs(x, p):
    if isinstance(p, Node):
        # subterms are interned before the terms they are part of
        if p.id <= x.id:
            return p is x
        k = (x, p)
        r = _OCC.get(k)
        if r is None:
            r = False
            for y in p.a:
                if isinstance(y, (Node, tuple)) and occurs(x, y):
                    r = True
                    break
            _OCC[k] = r
        return r
    if isinstance(p, tuple):
        for y in p:
            if isinstance(y, (Node, tuple)) and occurs(x, y):
                return True
    return False


def _ge_known(p):
    if prove_ge0(p):
        return True
    if prove_ge0(sub(neg(p), ONE)):
        return False
    return None


def _radix(p):
    """p>=0 iff Q>=0 when p = Q*M + R with 0 <= R < M."""
    cands = set()
    for m, c in p.a:
        s = tuple((x, e) for x, e in m if (x.op == 'app' and x.a[2] == 'i' and x.a[0] not in ('fdiv', 'mod')))
        if s:
            cands.add(s)
            if len(s) > 1:
                for i in range(len(s)):
                    cands.add(s[:i] + s[i + 1:])
    for s in sorted(cands, key=lambda t: (-len(t), tuple(x.id for x, _ in t))):
        q, r = {}, {}
        for m, c in p.a:
            d = _mono_div(m, s)
            if d is None:
                r[m] = c
            else:
                q[d] = c
        if not r or not q:
            continue
        Q, R, M = _poly(q), _poly(r), _poly({s: Fraction(1)})
        if is_const(Q) and False:
            continue
        for k in (0, 1):
            rr = add(R, scale(M, k))
            if prove_ge0(rr) and prove_ge0(sub(sub(M, ONE), rr)):
                return sub(Q, const(k))
    # multi-term divisors are not tried
    for g in sorted({abs(int(c)) for m, c in p.a if m != () and c.denominator == 1 and abs(c) > 1}, reverse=True):
        q, r = {}, {}
        for m, c in p.a:
            if m != () and c.denominator == 1 and int(c) % g == 0:
                q[m] = Fraction(int(c) // g)
            else:
                r[m] = c
        if not q or all(m == () for m in r):
            continue
        R = _poly(r)
        c0 = int(next((c for m, c in p.a if m == ()), 0)) // g
        for k in (-c0, -c0 - 1, -c0 + 1):
            rr = add(R, const(k * g))
            if prove_ge0(rr) and prove_ge0(sub(const(g - 1), rr)):
                return sub(_poly(q), const(k))
    return p


def holds(b):
    """True / False / None under the current assumptions."""
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    if b in CTX.factset:
        return True
    if bnot(b) in CTX.factset:
        return False
    if b.op == 'ge' and b.a[0] == 'i':
        return _ge_known(b.a[1])
    if b.op == 'eq' and b.a[0] == 'i':
        r = cmp_eq(b.a[1], ZERO)
        if r is TRUE:
            return True
        if r is FALSE:
            return False
        if prove_ge0(b.a[1]) and prove_ge0(neg(b.a[1])):
            return True
        return None
    if b.op in ('ge', 'gt', 'eq') and b.a[0] == 'r':
        return _real_known(b)
    if b.op == 'batom' and b.a[0] == 'signpos' and CTX.facts:
        if _real_known(mk('gt', 'r', b.a[1][0])) is True:
            return True
        if _real_known(mk('gt', 'r', neg(b.a[1][0]))) is True:
            return False
        return None
    if b.op == 'not':
        h = holds(b.a[0])
        return None if h is None else not h
    if b.op == 'and':
        hs = [holds(x) for x in b.a]
        if any(h is False for h in hs):
            return False
        return True if all(hs) else None
    if b.op == 'or':
        hs = [holds(x) for x in b.a]
        if any(h is True for h in hs):
            return True
        return False if all(h is False for h in hs) else None
    return None


def _real_facts():
    for f in CTX.facts:
        if f.op in ('ge', 'gt') and f.a[0] == 'r':
            yield f.op, f.a[1]
        elif f.op == 'eq' and f.a[0] == 'r':
            yield 'ge', f.a[1]
            yield 'ge', neg(f.a[1])
        elif f.op == 'batom' and f.a[0] == 'signpos':
            yield 'ge', f.a[1][0]
        elif f.op == 'not' and f.a[0].op == 'batom' and f.a[0].a[0] == 'signpos':
            yield 'ge', neg(f.a[0].a[1][0])


def _real_lower(p):
    """Greatest constant bound (c, strict) with p >= c from one real fact, or None."""
    if is_const(p):
        return cval(p), False
    best = None
    c0 = sum((c for m, c in p.a if m == ()), Fraction(0))
    if all(c > 0 and all(e % 2 == 0 or _pos_real(x) for x, e in m) for m, c in p.a if m != ()):
        best = (c0, any(all(_pos_real(x) for x, e in m) for m, c in p.a if m != ()))
    lead = next((m, c) for m, c in p.a if m != ())
    for op, q in _real_facts():
        cq = next((c for m, c in q.a if m == lead[0]), None)
        if cq is None or cq * lead[1] < 0:
            continue
        r = sub(p, scale(q, qdiv(lead[1], cq)))
        if is_const(r):
            b = (cval(r), op == 'gt')
            if best is None or b > best:
                best = b
    return best


def _pos_real(x):
    return x.op == 'app' and x.a[0] == 'exp'


def _real_known(b):
    p = b.a[1]
    lo = _real_lower(p)
    hi = _real_lower(neg(p))
    if lo == (0, False) or hi == (0, False):
        s, q = _sign_norm(p)
        if q.a and mk('not', mk('eq', 'r', scale(q, qdiv(1, q.a[-1][1])))) in CTX.factset:
            lo = (0, True) if lo == (0, False) else lo
            hi = (0, True) if hi == (0, False) else hi
    if b.op == 'ge':
        if lo and lo[0] >= 0 or prove_ge0(p):
            return True
        if hi and (hi[0] > 0 or hi[0] == 0 and hi[1]):
            return False
    elif b.op == 'gt':
        if lo and (lo[0] > 0 or lo[0] == 0 and lo[1]):
            return True
        if hi and hi[0] >= 0:
            return False
    else:
        if lo and (lo[0] > 0 or lo[0] == 0 and lo[1]) or hi and (hi[0] > 0 or hi[0] == 0 and hi[1]):
            return False
        if lo and hi and lo[0] == 0 and hi[0] == 0:
            return True
    return None


# --------------------------------------------------------------------------
# conditionals
# --------------------------------------------------------------------------

def nite(c, a, b):
    """Numeric conditional, as a polynomial."""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    h = holds(c)
    if h is not None:
        return a if h else b
    if c.op == 'not':
        c, a, b = c.a[0], b, a
    # choose a canonical orientation
    n = bnot(c)
    if n.id < c.id and n.op != 'not':
        c, a, b = n, b, a
    # nested same condition
    if a.op != 'poly' or b.op != 'poly':
        raise NotNum(a if a.op != 'poly' else b)
    a = _prune(a, c, True)
    b = _prune(b, c, False)
    if a is b:
        return a
    return atom(mk('nite', c, a, b))


def _prune(p, c, val):
    """Simplify direct conditionals on c inside polynomial p."""
    if not any(x.op == 'nite' for m, _ in p.a for x, _e in m):
        return p
    parts = []
    hit = False
    for m, k in p.a:
        t = None
        for i, (x, e) in enumerate(m):
            if x.op == 'nite' and (x.a[0] is c or bnot(x.a[0]) is c):
                pick = x.a[1] if (x.a[0] is c) == val else x.a[2]
                t = mul(_poly({m[:i] + m[i + 1:]: k}), power(pick, e))
                hit = True
                break
        parts.append(t if t is not None else _poly({m: k}))
    return add(*parts) if hit else p


def ite(c, a, b):
    """Conditional over any values."""
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if a.op == 'undef':
        return b
    if b.op == 'undef':
        return a
    if a.op == 'unreach':
        return b
    if b.op == 'unreach':
        return a
    if a.op == 'poly' and b.op == 'poly':
        return nite(c, a, b)
    h = holds(c)
    if h is not None:
        return a if h else b
    if isbool(a) and isbool(b):
        return bite(c, a, b)
    if a.op == 'obj' and b.op == 'obj':
        # one branch may be a special case of the fold in the other
        for x, y, g in ((a, b, bnot(c)), (b, a, c)):
            if x.a[0] == 'prj0':
                with assume(g):
                    if unroll(x) is y:
                        return x
    if a.op == 'top':
        return a
    if b.op == 'top':
        return b
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
        return mk('adt', a.a[0], a.a[1], tuple(ite(c, x, y) for x, y in zip(a.a[2], b.a[2])))
    if a.op == 'tup' and b.op == 'tup' and len(a.a) == len(b.a):
        return mk('tup', *[ite(c, x, y) for x, y in zip(a.a, b.a)])
    if a.op == 'it' and b.op == 'it':
        m = _ite_it(c, a, b)
        if m is not None:
            return m
    if isseq(a) and isseq(b):
        r = _ite_seq(c, a, b)
        if r is not None:
            return r
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.op == 'ref' and b.op == 'ref' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        # references into the same cell that differ in indices only
        path = []
        for x, y in zip(a.a[1], b.a[1]):
            if x == y:
                path.append(x)
            elif x[0] == y[0] and x[0] in ('i', 'sub') and len(x) == len(y):
                path.append((x[0],) + tuple(nite(c, p, q) for p, q in zip(x[1:], y[1:])))
            else:
                path = None
                break
        if path is not None:
            return mk('ref', a.a[0], tuple(path))
    if c.op == 'not' or (bnot(c).id < c.id and bnot(c).op != 'not'):
        return mk('ite', bnot(c), b, a)
    return mk('ite', c, a, b)


def _ite_it(c, a, b):
    if a.a[1] is b.a[1] and a.a[2] is b.a[2] and a.a[0] == b.a[0] and a.a[4] == b.a[4]:
        return mk('it', a.a[0], a.a[1], a.a[2], nite(c, a.a[3], b.a[3]), a.a[4])
    return None


def isbool(x):
    return x.op in ('true', 'false', 'ge', 'gt', 'eq', 'batom', 'not', 'and', 'or', 'ex')


# --------------------------------------------------------------------------
# binders
# --------------------------------------------------------------------------

def hvar(h):
    return mk('var', '#%d' % h)


def close(body, var, *others):
    """Rename free `var` to the canonical bound variable; returns (name, body)."""
    h = body.h + 1
    for o in others:
        h = max(h, o.h + 1)
    v = hvar(h)
    return v.a[0], subst(body, {var.a[0]: atom(v)})


def seql(n, f, var=None):
    """Sequence of length n with element f(index)."""
    n = num(n)
    if var is None:
        k = fresh('s', n)
        body = f(atom(k))
    else:
        k, body = var, f
    nm, b = close(body, k)
    return mk('seql', (nm,), n, b)


def seql_body(s, idx):
    (nm,), n, b = s.a
    return subst(b, {nm: num(idx)})


def sume(n, f, var=None):
    """Sum over 0 <= k < n."""
    n = num(n)
    if var is None:
        k = fresh('t', n)
        body = num(f(atom(k)))
    else:
        k, body = var, f
        if k.a[0] not in CTX.ranges:
            CTX.ranges[k.a[0]] = n
    return _sum1(k, n, body)


def _sum1(k, n, body):
    kn = k.a[0]
    ni = as_int(n)
    if ni is not None and ni <= 0:
        return ZERO
    if ni == 1:
        return subst(body, {kn: ZERO})
    out = []
    for m, c in body.a:
        dep = tuple((x, e) for x, e in m if kn in x.fv)
        ind = tuple((x, e) for x, e in m if kn not in x.fv)
        if not dep:
            out.append(mul(_poly({ind: c}), n))
            continue
        out.append(mul(_poly({ind: c}), _sum_mono(k, n, dep)))
    return add(*out) if out else ZERO


def _sum_mono(k, n, dep):
    kn = k.a[0]
    # a chain of conditions, one of which pins the summation variable
    for i, (x, e) in enumerate(dep):
        if x.op == 'nite' and e == 1:
            conds, v = [], atom(x)
            while True:
                y = _single(v)
                if y is None or y.op != 'nite' or y.a[1].op != 'poly' or y.a[2].op != 'poly':
                    break
                if not y.a[2].a:
                    conds.append(y.a[0])
                    v = y.a[1]
                elif not y.a[1].a:
                    conds.append(bnot(y.a[0]))
                    v = y.a[2]
                else:
                    break
            if len(conds) > 1:
                all_ = band(*conds)
                for c in (all_.a if all_.op == 'and' else (all_,)):
                    t = solve_linear(c.a[1], kn) if c.op == 'eq' and c.a[0] == 'i' else None
                    if t is not None:
                        rest = _poly({dep[:i] + dep[i + 1:]: Fraction(1)})
                        inside = band(cmp_ge(t), cmp_ge(sub(sub(n, ONE), t)), subst(all_, {kn: t}))
                        with assume(inside):
                            r = subst(mul(rest, v), {kn: t})
                        return nite(inside, r, ZERO)
    # conditionals on the summation variable
    for i, (x, e) in enumerate(dep):
        if x.op == 'nite' and e == 1 and kn in x.a[0].fv:
            rest = _poly({dep[:i] + dep[i + 1:]: Fraction(1)})
            r = _sum_cond(k, n, x.a[0], mul(rest, x.a[1]), mul(rest, x.a[2]))
            if r is not None:
                return r
        elif x.op == 'nite' and e == 1:
            rest = _poly({dep[:i] + dep[i + 1:]: Fraction(1)})
            return nite(x.a[0], _sum1(k, n, mul(rest, x.a[1])), _sum1(k, n, mul(rest, x.a[2])))
    # plain powers of the variable
    if len(dep) == 1 and dep[0][0] is k and dep[0][1] == 1:
        return scale(mul(n, sub(n, ONE)), Fraction(1, 2))
    # flatten nested sums
    binders = [(k, n)]
    body = dep
    for i, (x, e) in enumerate(dep):
        if x.op == 'sum' and e == 1:
            vs = [fresh('t') for _ in x.a[0]]
            env = {old: atom(v) for old, v in zip(x.a[0], vs)}
            ns = [subst(nn, env) for nn in x.a[1]]
            if any(kn in nn.fv for nn in ns):
                break
            for v, nn in zip(vs, ns):
                CTX.ranges[v.a[0]] = nn
            inner = subst(x.a[2], env)
            p = mul(_poly({dep[:i] + dep[i + 1:]: Fraction(1)}), inner)
            if len(p.a) == 1 and p.a[0][1] == 1:
                binders += list(zip(vs, ns))
                body = p.a[0][0]
            break
    return _mk_sum(binders, body)


def _mk_sum(binders, mono):
    bodyp = _poly({mono: Fraction(1)})
    h0 = max([bodyp.h] + [n.h for _, n in binders])
    k = len(binders)
    if k == 1:
        v, n = binders[0]
        hv = hvar(h0 + 1)
        return atom(mk('sum', (hv.a[0],), (n,), subst(bodyp, {v.a[0]: atom(hv)})))
    best = None
    for perm in itertools.permutations(range(k)) if k <= 4 else [tuple(range(k))]:
        names = ['#%d' % (h0 + 1 + i) for i in range(k)]
        env = {binders[perm[i]][0].a[0]: atom(mk('var', names[i])) for i in range(k)}
        ns = tuple(subst(binders[perm[i]][1], env) for i in range(k))
        nd = mk('sum', tuple(names), ns, subst(bodyp, env))
        if best is None or nd.id < best.id:
            best = nd
    return atom(best)


def _rebuild_sum(names, ns, body):
    vs = [fresh('t') for _ in names]
    env = {o: atom(v) for o, v in zip(names, vs)}
    ns = [subst(n, env) for n in ns]
    for v, n in zip(vs, ns):
        CTX.ranges[v.a[0]] = n
    b = subst(body, env)
    for v, n in reversed(list(zip(vs, ns))):
        b = _sum1(v, n, b)
    return b


def solve_linear(p, kn):
    """p == 0 for integer variable kn with coefficient +-1: value of the variable."""
    k = mk('var', kn)
    A, B = _split_linear(p, k)
    if A is None or not is_const(A):
        return None
    a = cval(A)
    if a == 1:
        return neg(B)
    if a == -1:
        return B
    return None


def _sum_cond(k, n, c, a, b):
    """Sum over k<n of (c ? a : b) for conditions that split the range."""
    kn = k.a[0]
    if c.op == 'ge' and c.a[0] == 'i':
        A, B = _split_linear(c.a[1], k)
        if A is None or not is_const(A) or abs(cval(A)) != 1:
            return None
        if cval(A) == 1:
            # k >= -B : a on [t, n), b on [0, t)
            t = neg(B)
            lo, hi = b, a
        else:
            # k <= B : a on [0, B+1), b after
            t = add(B, ONE)
            lo, hi = a, b
        t = clamp(t, n)
        def tail():
            k2 = fresh('t', sub(n, t))
            return _sum1(k2, sub(n, t), subst(hi, {kn: add(atom(k2), t)}))
        k1 = fresh('t', t)
        return add(_sum1(k1, t, subst(lo, {kn: atom(k1)})), tail())
    if c.op == 'eq' and c.a[0] == 'i':
        v = solve_linear(c.a[1], kn)
        if v is None:
            return None
        inside = band(cmp_ge(v), cmp_ge(sub(sub(n, ONE), v)))
        rest = _sum1(k, n, b)
        return add(rest, nite(inside, subst(sub(a, b), {kn: v}), ZERO))
    if c.op == 'not':
        return _sum_cond(k, n, c.a[0], b, a)
    if c.op == 'and':
        first, rest = c.a[0], band(*c.a[1:])
        if kn not in first.fv:
            return nite(first, _sum1(k, n, nite(rest, a, b)), _sum1(k, n, b))
        return _sum_cond(k, n, first, nite(rest, a, b), b)
    if c.op == 'or':
        first, rest = c.a[0], bor(*c.a[1:])
        if kn not in first.fv:
            return nite(first, _sum1(k, n, a), _sum1(k, n, nite(rest, a, b)))
        return _sum_cond(k, n, first, a, nite(rest, a, b))
    return None


def clamp(t, n):
    """max(0, min(t, n)) as conditionals."""
    inner = nite(cmp_ge(sub(t, n)), n, t)
    if prove_ge0(t):
        return inner
    return nite(cmp_ge(neg(t)), ZERO, inner)


def exists(n, f, var=None):
    n = num(n)
    if var is None:
        k = fresh('e', n)
        body = f(atom(k))
    else:
        k, body = var, f
    kn = k.a[0]
    if body is FALSE:
        return FALSE
    if kn not in body.fv:
        return band(cmp_ge(sub(n, ONE)), body)
    if body.op == 'or':
        return bor(*[exists(n, x, var=k) for x in body.a])
    if body.op == 'and':
        ind = [x for x in body.a if kn not in x.fv]
        if ind:
            dep = [x for x in body.a if kn in x.fv]
            return band(*ind, exists(n, band(*dep), var=k))
    if body.op == 'eq' and body.a[0] == 'i':
        v = solve_linear(body.a[1], kn)
        if v is not None:
            return band(cmp_ge(v), cmp_ge(sub(sub(n, ONE), v)))
    if body.op == 'ge' and body.a[0] == 'i':
        A, B = _split_linear(body.a[1], k)
        if A is not None and is_const(A):
            # linear: extreme at an end of the range
            at = sub(n, ONE) if cval(A) > 0 else ZERO
            return band(cmp_ge(sub(n, ONE)), cmp_ge(add(mul(A, at), B)))
    nm, b = close(body, k)
    return mk('ex', (nm,), n, b)


def first(n, body, var):
    """Smallest k<n with body(k), else n."""
    n = num(n)
    kn = var.a[0]
    if body is FALSE:
        return n
    if kn not in body.fv:
        return nite(body, ZERO, n)
    if body.op == 'eq' and body.a[0] == 'i':
        v = solve_linear(body.a[1], kn)
        if v is not None:
            return nite(band(cmp_ge(v), cmp_ge(sub(sub(n, ONE), v))), v, n)
    if body.op == 'ge' and body.a[0] == 'i':
        A, B = _split_linear(body.a[1], var)
        if A is not None and is_const(A) and cval(A) == 1:
            return clamp(neg(B), n)
    if body.op == 'or':
        fs = [first(n, x, var) for x in body.a]
        if not any(y.op == 'first' for f in fs for m, _ in f.a for y, _ in m):
            r = fs[0]
            for f in fs[1:]:
                r = nite(cmp_ge(sub(f, r)), r, f)
            return r
    nm, b = close(body, var)
    return atom(mk('first', (nm,), n, b))


# --------------------------------------------------------------------------
# sequences
# --------------------------------------------------------------------------
SEQ = {'seql', 'seqe', 'seqc', 'sequ', 'seqphi', 'seqd', 'seqf'}


def isseq(x):
    return x.op in SEQ


def seqe(items):
    return mk('seqe', *items)


def seq_len(s):
    op = s.op
    if op == 'seqe':
        return const(len(s.a))
    if op == 'seql':
        return s.a[1]
    if op == 'seqc':
        return add(*[seq_len(x) for x in s.a])
    if op == 'sequ':
        return seq_len(s.a[0])
    if op == 'seqphi':
        return app(s.a[0] + '.len', *s.a[2], sort='i')
    if op == 'seqd':
        return sub(seq_len(s.a[0]), s.a[1])
    if op == 'seqf':
        (nm,), n, b = s.a
        k = fresh('t', n)
        return sume(n, seq_len_any(subst(b, {nm: atom(k)})), var=k)
    if op == 'ite':
        return nite(s.a[0], seq_len_any(s.a[1]), seq_len_any(s.a[2]))
    raise NotNum(s)


def seq_len_any(s):
    return seq_len(s)


def seq_at(s, i):
    i = num(i)
    op = s.op
    if op == 'seql':
        return seql_body(s, i)
    if op == 'seqe':
        ci = as_int(i)
        if ci is not None:
            if 0 <= ci < len(s.a):
                return s.a[ci]
            return mk('top', 'index out of range')
        if not s.a:
            return mk('top', 'index into empty sequence')
        r = s.a[-1]
        for j in range(len(s.a) - 2, -1, -1):
            r = ite(cmp_eq(i, const(j)), s.a[j], r)
        return r
    if op == 'sequ':
        b, j, v = s.a
        return ite(cmp_eq(i, j), v, seq_at(b, i))
    if op == 'seqc':
        off = ZERO
        parts = []
        for x in s.a:
            l = seq_len(x)
            parts.append((x, off, l))
            off = add(off, l)
        r = None
        for x, o, l in reversed(parts):
            # skip parts that cannot contain i
            if prove_ge0(sub(o, add(i, ONE))):
                continue
            if prove_ge0(sub(i, add(o, l))):
                if r is None:
                    continue
                return r
            c = cmp_ge(sub(sub(add(o, l), ONE), i))
            if r is None:
                v = seq_at(x, sub(i, o))
                r = v
            else:
                if c is FALSE:
                    continue
                with assume(c):
                    v = seq_at(x, sub(i, o))
                r = ite(c, v, r)
        return r if r is not None else mk('top', 'index out of range')
    if op == 'seqphi':
        return elem_obj(s.a[0], s.a[1], s.a[2] + (i,))
    if op == 'seqd':
        return seq_at(s.a[0], add(i, s.a[1]))
    if op == 'ite':
        # an index in range cannot come from an empty branch
        for x, y in ((1, 2), (2, 1)):
            if s.a[x].op == 'seqe' and not s.a[x].a and s.a[y].op != 'seqe':
                return seq_at(s.a[y], i)
        return ite(s.a[0], seq_at(s.a[1], i), seq_at(s.a[2], i))
    if op == 'seqf':
        return flat_elem(s, i)
    if op == 'top':
        return s
    return mk('top', 'index of %s' % op)


def flat_elem(s, i):
    """Element of a flattened sequence whose position is not resolved."""
    (nm,), n, body = s.a
    e = seq_at(subst(body, {nm: atom(fresh('t', n))}), atom(fresh('t')))

    def rec(e, path):
        while e.op == 'ite':
            e = e.a[2] if e.a[1].op in ('undef', 'unreach', 'top') else e.a[1]
        if e.op == 'poly':
            return atom(mk('app', 'flat[]', (s, i, path), sort_of(e)))
        if e.op in ('adt', 'tup'):
            fs = e.a[2] if e.op == 'adt' else e.a
            out = [rec(f, path + (k,)) for k, f in enumerate(fs)]
            return mk('adt', e.a[0], e.a[1], tuple(out)) if e.op == 'adt' else mk('tup', *out)
        return mk('obj', 'flat[]', (s, i, path), None)
    if e.op == 'adt' and e.a[1] != 0:
        return mk('obj', 'flat[]', (s, i, ()), None)
    return rec(e, ())


def flat_proj(v, path):
    for j, k in enumerate(path):
        if v.op == 'ite':
            return ite(v.a[0], flat_proj(v.a[1], path[j:]), flat_proj(v.a[2], path[j:]))
        if v.op == 'adt':
            v = v.a[2][k]
        elif v.op == 'tup':
            v = v.a[k]
        else:
            return mk('top', 'element of a flattened sequence')
    return v


sort_of = None   # installed by the value layer
elem_obj = None  # installed by the value layer: (name, elemtype, idxs) -> value


def seq_cat(*parts):
    out = []
    for p in parts:
        if p.op == 'seqc':
            out.extend(p.a)
        elif p.op == 'seqe' and not p.a:
            continue
        elif p.op == 'seql' and not p.a[1].a:
            continue
        else:
            out.append(p)
    r = []
    for p in out:
        if r and p.op == 'seqe' and r[-1].op == 'seqe':
            r[-1] = seqe(r[-1].a + p.a)
        else:
            r.append(p)
    if not r:
        return seqe(())
    if len(r) == 1:
        return r[0]
    return mk('seqc', *r)


def seq_upd(s, i, v):
    i = num(i)
    if s.op == 'seqe':
        ci = as_int(i)
        if ci is not None and 0 <= ci < len(s.a):
            return seqe(s.a[:ci] + (v,) + s.a[ci + 1:])
    if s.op == 'sequ' and s.a[1] is i:
        s = s.a[0]
    if s.op == 'seqc':
        off = ZERO
        for k, x in enumerate(s.a):
            l = seq_len(x)
            if prove_ge0(sub(i, off)) and prove_ge0(sub(sub(add(off, l), ONE), i)):
                return mk('seqc', *(s.a[:k] + (seq_upd(x, sub(i, off), v),) + s.a[k + 1:]))
            off = add(off, l)
    return mk('sequ', s, i, v)


def seq_drop(s, m):
    m = num(m)
    if not m.a:
        return s
    if s.op == 'seqd':
        return seq_drop(s.a[0], add(s.a[1], m))
    if s.op == 'seqphi':
        return mk('seqd', s, m)
    if s.op == 'seqe':
        c = as_int(m)
        if c is not None:
            return seqe(s.a[c:])
    if s.op == 'ite':
        return ite(s.a[0], seq_drop(s.a[1], m), seq_drop(s.a[2], m))
    return seq_sub(s, m, sub(seq_len(s), m))


def seq_sub(s, start, n):
    start, n = num(start), num(n)
    if not start.a and n is seq_len(s):
        return s
    if s.op == 'seqe':
        a, l = as_int(start), as_int(n)
        if a is not None and l is not None:
            return seqe(s.a[a:a + l])
    if s.op == 'ite':
        return ite(s.a[0], seq_sub(s.a[1], start, n), seq_sub(s.a[2], start, n))
    if s.op == 'seqc':
        # exact part alignment
        off = ZERO
        for i, x in enumerate(s.a):
            if off is start:
                o2 = ZERO
                for j in range(i, len(s.a)):
                    o2 = add(o2, seq_len(s.a[j]))
                    if o2 is n:
                        return seq_cat(*s.a[i:j + 1])
            off = add(off, seq_len(x))
    if s.op == 'top':
        return s
    k = fresh('s', n)
    return seql(n, seq_at(s, add(atom(k), start)), var=k)


def _ite_seq(c, a, b):
    pa = a.a if a.op == 'seqc' else (a,)
    pb = b.a if b.op == 'seqc' else (b,)
    if pa[0] is pb[0] and (len(pa) > 1 or len(pb) > 1):
        ra, rb = seq_cat(*pa[1:]), seq_cat(*pb[1:])
        if seq_len(ra) is seq_len(rb):
            return seq_cat(pa[0], _ite_seq(c, ra, rb) if not (ra is rb) else ra)
        return None
    if a.op in ('seqphi', 'seqd') or b.op in ('seqphi', 'seqd'):
        ba, ma = (a.a[0], a.a[1]) if a.op == 'seqd' else (a, ZERO)
        bb, mb = (b.a[0], b.a[1]) if b.op == 'seqd' else (b, ZERO)
        if ba is bb:
            return seq_drop(ba, nite(c, ma, mb))
        return None
    if a.op == 'seqf' or b.op == 'seqf':
        return None
    la, lb = seq_len(a), seq_len(b)
    if la is not lb:
        return None
    if a.op == 'seqe' and b.op == 'seqe':
        return seqe([ite(c, x, y) for x, y in zip(a.a, b.a)])
    k = fresh('s', la)
    return seql(la, ite(c, seq_at(a, atom(k)), seq_at(b, atom(k))), var=k)


def seq_repeat_cat(n, m, f):
    """Concatenation over t<n of sequences f(t) of common length m."""
    n, m = num(n), num(m)
    if m is ONE:
        return seql(n, lambda t: seq_at(f(t), ZERO))
    tot = mul(n, m)
    k = fresh('s', tot)
    q, r = f_divmod(atom(k), m)
    return seql(tot, seq_at(f(q), r), var=k)


# --------------------------------------------------------------------------
# substitution
# --------------------------------------------------------------------------

def subst(x, env, phi=None):
    """Substitute variables (env: name -> poly) and phi functions (phi: name -> callable)."""
    if not env and not phi:
        return x
    return Subst(env, phi).go(x)


def resimplify(x):
    """Rebuild x under the current assumptions."""
    return Subst({}, None, force=True).go(x)


class Subst:
    def __init__(self, env, phi, force=False):
        self.env = env
        self.names = frozenset(env)
        self.phi = phi or {}
        self.pn = frozenset(self.phi)
        self.force = force
        self.memo = {}

    def touches(self, x):
        return self.force or (self.names and not self.names.isdisjoint(x.fv)) or \
            (self.pn and not self.pn.isdisjoint(x.fn))

    def tup(self, t):
        return tuple(self.go(y) if isinstance(y, Node) else (self.tup(y) if isinstance(y, tuple) else y) for y in t)

    def go(self, x):
        if not self.touches(x):
            return x
        r = self.memo.get(x)
        if r is None:
            r = self._go(x)
            self.memo[x] = r
        return r

    def poly(self, x):
        parts = []
        for m, c in x.a:
            t = None
            keep = []
            for y, e in m:
                if self.touches(y):
                    z = self.atom(y)
                    if z.op != 'poly':
                        if z.op == 'top': return z
                        return mk('top', 'non-number in arithmetic')
                    z = power_mono(z, e) if e > 0 or (len(z.a) == 1) else power(z, e)
                    t = z if t is None else mul(t, z)
                else:
                    keep.append((y, e))
            base = _poly({tuple(keep): c})
            parts.append(base if t is None else mul(base, t))
        return add(*parts) if parts else ZERO

    def atom(self, y):
        r = self.memo.get(y)
        if r is None:
            r = self._atom(y)
            self.memo[y] = r
        return r

    def _atom(self, y):
        op = y.op
        if op == 'var':
            return self.env.get(y.a[0], None) or atom(y) if y.a[0] in self.env else atom(y)
        if op == 'app':
            name, args = y.a[0], self.tup(y.a[1])
            if self.phi and isinstance(name, str) and name[:1] in 'φ@':
                base = name.split('.')[0].split('[')[0]
                f = self.phi.get(base)
                if f is not None:
                    return f(name, args, y)
            return rebuild_app(name, args, y)
        if op == 'sum':
            names, ns, body = y.a
            vs = [fresh('t') for _ in names]
            env = {o: atom(v) for o, v in zip(names, vs)}
            ns2 = [self.go(subst(n, env)) for n in ns]
            for v, n in zip(vs, ns2):
                CTX.ranges[v.a[0]] = n
            b = self.go(subst(body, env))
            for v, n in reversed(list(zip(vs, ns2))):
                b = _sum1(v, n, b)
            return b
        if op == 'nite':
            c = self.go(y.a[0])
            if c is TRUE:
                return self.go(y.a[1])
            if c is FALSE:
                return self.go(y.a[2])
            if self.force:
                with assume(c):
                    a = Subst(self.env, self.phi, True).go(y.a[1])
                with assume(bnot(c)):
                    b = Subst(self.env, self.phi, True).go(y.a[2])
                return nite(c, a, b)
            return nite(c, self.go(y.a[1]), self.go(y.a[2]))
        if op == 'polya':
            return self.go(y.a[0])
        if op == 'first':
            (nm,), n, body = y.a
            n2 = self.go(n)
            k = fresh('t', n2)
            return first(n2, self.go(subst(body, {nm: atom(k)})), k)
        if op == 'prj':
            fo, j, idx, sort = y.a
            return fold_prj(self.go(fo), j, self.tup(idx), sort)
        raise Exception('atom ' + op)

    def _go(self, x):
        op = x.op
        if op == 'poly':
            return self.poly(x)
        if op in ATOMS:
            return self.atom(x)
        if op == 'ge':
            return cmp_ge(self.go(x.a[1]), x.a[0])
        if op == 'gt':
            return cmp_gt(self.go(x.a[1]), x.a[0])
        if op == 'eq':
            return cmp_eq(self.go(x.a[1]), ZERO, x.a[0])
        if op == 'not':
            return bnot(self.go(x.a[0]))
        if op == 'and':
            return band(*[self.go(y) for y in x.a])
        if op == 'or':
            return bor(*[self.go(y) for y in x.a])
        if op == 'batom':
            if self.phi and x.a[0][:1] in 'φ@':
                f = self.phi.get(x.a[0].split('.')[0].split('[')[0])
                if f is not None:
                    return f(x.a[0], self.tup(x.a[1]), x)
            return batom_rebuild(x.a[0], self.tup(x.a[1]))
        if op == 'ex':
            (nm,), n, body = x.a
            n2 = self.go(n)
            k = fresh('e', n2)
            return exists(n2, self.go(subst(body, {nm: atom(k)})), var=k)
        if op == 'seql':
            (nm,), n, body = x.a
            n2 = self.go(n)
            k = fresh('s', n2)
            return seql(n2, self.go(subst(body, {nm: atom(k)})), var=k)
        if op == 'seqf':
            (nm,), n, body = x.a
            n2 = self.go(n)
            k = fresh('s', n2)
            return seqf(n2, self.go(subst(body, {nm: atom(k)})), k)
        if op == 'it':
            (nm,), n, body, pos, ex = x.a
            n2 = self.go(n)
            k = fresh('s', n2)
            return mk_it(n2, self.go(subst(body, {nm: atom(k)})), k, self.go(pos), self.tup(ex))
        if op == 'ite':
            c = self.go(x.a[0])
            if c is TRUE:
                return self.go(x.a[1])
            if c is FALSE:
                return self.go(x.a[2])
            if self.force:
                with assume(c):
                    a = Subst(self.env, self.phi, True).go(x.a[1])
                with assume(bnot(c)):
                    b = Subst(self.env, self.phi, True).go(x.a[2])
                return ite(c, a, b)
            return ite(c, self.go(x.a[1]), self.go(x.a[2]))
        if op == 'seqc':
            return seq_cat(*[self.go(y) for y in x.a])
        if op == 'sequ':
            return seq_upd(self.go(x.a[0]), self.go(x.a[1]), self.go(x.a[2]))
        if op == 'seqd':
            return seq_drop(self.go(x.a[0]), self.go(x.a[1]))
        if op == 'seqphi':
            f = self.phi.get(x.a[0].split('.')[0].split('[')[0])
            if f is not None:
                return f(x.a[0], self.tup(x.a[2]), x)
            return mk('seqphi', x.a[0], x.a[1], self.tup(x.a[2]))
        if op == 'obj':
            name = x.a[0]
            args = self.tup(x.a[1])
            if self.phi and isinstance(name, str) and name[:1] in 'φ@':
                f = self.phi.get(name.split('.')[0].split('[')[0])
                if f is not None:
                    return f(name, args, x)
            if name == 'flat[]':
                return flat_rebuild(args) or mk('obj', name, args, x.a[2])
            return mk('obj', name, args, *x.a[2:])
        if op == 'fold':
            names, n, inits, posts = x.a[0], x.a[1], x.a[2], x.a[3]
            n2 = self.go(n)
            in2 = self.tup(inits)
            k = fresh('k', n2)
            # open accumulators with fresh phi names
            h = max(int(b[1:]) for b in names)
            opened, accs = fold_open(x, k)
            p2 = tuple(self.go(p) for p in opened)
            return mk_fold(n2, in2, p2, k, accs, x.a[4])
        return mk(op, *self.tup(x.a))


class AtomSubst(Subst):
    """Replace one atom by a polynomial everywhere."""

    def __init__(self, target, value):
        Subst.__init__(self, {}, None, force=True)
        self.target = target
        self.value = value

    def _atom(self, y):
        if y is self.target:
            return self.value
        return Subst._atom(self, y)


def replace_atom(x, target, value):
    return AtomSubst(target, value).go(x)


def mentions(x, y, seen=None):
    """The node y occurs in x."""
    seen = set() if seen is None else seen
    if isinstance(x, tuple):
        return any(mentions(z, y, seen) for z in x)
    if x is y:
        return True
    if not isinstance(x, Node) or x in seen:
        return False
    seen.add(x)
    return any(mentions(z, y, seen) for z in x.a)


def known_equalities():
    """Polynomials that are zero by the current integer facts."""
    out = []
    ges = [f.a[1] for f in CTX.facts if f.op == 'ge' and f.a[0] == 'i']
    for f in CTX.facts:
        if f.op == 'eq' and f.a[0] == 'i':
            out.append(f.a[1])
    s = set(ges)
    for p in ges:
        n = neg(p)
        if n in s and n is not p and neg(out[-1] if out else ZERO) is not p:
            out.append(p)
    return out


def flat_rebuild(args):
    if args[0].op == 'seqf':
        return None
    return flat_proj(seq_at(args[0], args[1]), args[2])


def rebuild_app(name, args, y):
    if name == 'sqrt':
        return f_sqrt(args[0])
    if name == 'exp':
        return f_exp(args[0])
    if name == 'cos':
        return f_cos(args[0])
    if name == 'sin':
        return f_sin(args[0])
    if name == 'ln':
        return f_ln(args[0])
    if name == 'abs':
        return f_abs(args[0])
    if name == 'fdiv':
        return f_div(*args)
    if name == 'mod':
        return f_mod(*args)
    if name == 'min':
        return f_min(*args)
    if name == 'max':
        return f_max(*args)
    if name == 'conj':
        return f_conj(args[0])
    if name == 'flat[]':
        r = flat_rebuild(args)
        if r is not None:
            return r
    return atom(mk('app', name, args, *y.a[2:]))


def batom_rebuild(name, args):
    if name == 'signpos' and args[0].op == 'poly' and is_const(args[0]) and args[0].a:
        return bconst(cval(args[0]) > 0)
    if name == 'gtT':
        return gt_ring(*args)
    return _lookup(mk('batom', name, args))


def gt_ring(a, b):
    if a is b:
        return FALSE
    return _lookup(mk('batom', 'gtT', (a, b)))


def seqf(n, body, k):
    """Concatenation of variable-length sequences."""
    kn = k.a[0]
    l = seq_len(body) if isseq(body) or body.op == 'ite' else None
    if l is not None and kn not in l.fv:
        return seq_repeat_cat(n, l, lambda t: subst(body, {kn: t}))
    nm, b = close(body, k)
    return mk('seqf', (nm,), n, b)


def mk_it(n, body, k, pos, extra=()):
    nm, b = close(body, k)
    return mk('it', (nm,), n, b, num(pos), extra)


# --- folds -----------------------------------------------------------------
# fold: names=(#h,), n, inits, posts (over #h and accumulators @h_j...), kinds

def mk_fold(n, inits, posts, k, accs, kinds):
    """accs: list of phi base names (strings) standing for the accumulators in posts."""
    h = max([p.h for p in posts] + [0]) + 1
    hv = hvar(h)
    phi = {}
    for j, a in enumerate(accs):
        phi[a] = _renamer(a, '@%d_%d' % (h, j))
    if len(accs) == 1 and kinds[0][0] == 'num' and k.a[0] not in posts[0].fv:
        r = _iterate(n, inits[0], posts[0], accs[0], kinds)
        if r is not None:
            return r
    if len(accs) == 1 and kinds[0][0] == 'obj' and k.a[0] in posts[0].fv:
        n, inits, posts = _absorb(n, inits, posts, k.a[0], accs[0])
    posts2 = tuple(subst(p, {k.a[0]: atom(hv)}, phi) for p in posts)
    if len(accs) == 1 and kinds[0][0] == 'num' and k.a[0] not in posts[0].fv:
        n, inits = _merge_iterates(n, inits, posts2)
    return mk('fold', (hv.a[0],), n, tuple(inits), posts2, tuple(kinds))


def _absorb(n, inits, posts, kn, acc):
    """Fold over k of f(k) from f(-1)(x): one step more, from x."""
    for _ in range(4):
        hole = []

        def match(a, b):
            if isinstance(a, tuple):
                return isinstance(b, tuple) and len(a) == len(b) and all(map(match, a, b))
            if not isinstance(a, Node):
                return a == b
            if acc not in a.fn:
                return a is b
            if a.op == 'obj' and a.a[0] == acc and not a.a[1]:
                hole.append(b)
                return hole[0] is b
            return isinstance(b, Node) and a.op == b.op and match(a.a, b.a)
        if acc not in posts[0].fn or not match(subst(posts[0], {kn: const(-1)}), inits[0]) or not hole:
            break
        n, inits = add(n, ONE), (hole[0],)
        posts = (subst(posts[0], {kn: sub(atom(mk('var', kn)), ONE)}),)
    return n, inits, posts


def _as_prj(p):
    """The single-accumulator fold a number projects from."""
    if p.op == 'poly' and len(p.a) == 1 and p.a[0][1] == 1 and len(p.a[0][0]) == 1 and p.a[0][0][0][1] == 1:
        x = p.a[0][0][0][0]
        if x.op == 'prj' and x.a[0].op == 'fold' and len(x.a[0].a[2]) == 1:
            return x.a[0]
    return None


def _iterate(n, init, post, acc, kinds):
    """Iterating an iteration: f^m applied n times is f^(n m)."""
    f = _as_prj(post)
    if f is None:
        return None
    names, m, inits, posts, k2 = f.a
    if acc in m.fn or acc in posts[0].fn or names[0] in posts[0].fv or m.op != 'poly':
        return None
    i = inits[0]
    if not (i.op == 'poly' and len(i.a) == 1 and i.a[0][1] == 1 and len(i.a[0][0]) == 1 and i.a[0][0][0][1] == 1
            and i.a[0][0][0][0].op == 'app' and i.a[0][0][0][0].a[0] == acc and not i.a[0][0][0][0].a[1]):
        return None
    n, inits = _merge_iterates(mul(n, m), (init,), posts)
    return mk('fold', names, n, tuple(inits), posts, k2)


def _merge_iterates(n, inits, posts):
    f = _as_prj(inits[0])
    if f is not None and f.a[3] == posts:
        return add(n, f.a[1]), f.a[2]
    return n, inits


def iterate(n, init, step, sort='i'):
    """step applied n times to init."""
    n = num(n)
    if not n.a:
        return init
    nm = fresh_name('φ')
    k = fresh('k', n)
    return atom(mk('prj', mk_fold(n, (init,), (step(app(nm, sort=sort)),), k, [nm], [('num', sort)]), 0, (), sort))


def _renamer(old, new):
    def f(name, args, y):
        nn = new + name[len(old):]
        if y.op == 'app':
            return atom(mk('app', nn, args, *y.a[2:]))
        if y.op == 'seqphi':
            return mk('seqphi', nn, y.a[1], args)
        if y.op == 'batom':
            return mk('batom', nn, args)
        return mk('obj', nn, args, *y.a[2:])
    return f


def _single(p):
    """The atom a number consists of."""
    if p.op == 'poly' and len(p.a) == 1 and p.a[0][1] == 1 and len(p.a[0][0]) == 1 and p.a[0][0][0][1] == 1:
        return p.a[0][0][0][0]
    return None


def argmax(n, init, post, k, acc):
    """Index of the first largest element, found by a scan that remembers the largest so far (starting from zero)."""
    x = _single(post)
    if x is None or x.op != 'nite' or init.op != 'poly' or init.a or not prove_ge0(sub(n, ONE)):
        return None
    c, yes, no = x.a
    if c.op != 'batom' or c.a[0] != 'gtT' or yes is not atom(k) or acc in c.fn:
        return None
    y = _single(no)
    if y is None or y.op != 'app' or y.a[0] != acc or y.a[1]:
        return None
    e, best = c.a[1]
    v = _single(best)
    if v is None or v.op != 'prj' or v.a[0].op != 'fold' or len(v.a[0].a[2]) != 1 or v.a[0].a[1] is not atom(k):
        return None
    if v.a[0].a[2][0].op != 'poly' or v.a[0].a[2][0].a:
        return None
    i = fresh('t', n)
    (step,), (a,) = fold_open(v.a[0], i)
    z = _single(step)
    cur = app(a, sort='c')
    ei = subst(e, {k.a[0]: atom(i)})
    if z is None or z.op != 'nite' or z.a[0] is not gt_ring(ei, cur) or z.a[1] is not ei or z.a[2] is not cur:
        return None
    j = fresh('t', n)
    return first(n, bnot(exists(n, gt_ring(subst(e, {k.a[0]: atom(j)}), ei), var=j)), i)


def unroll(x):
    """An object computed by a fold whose count is known to be small."""
    if not (x.op == 'obj' and x.a[0] == 'prj0' and x.a[1] and x.a[1][0].op == 'fold' and len(x.a[1][0].a[2]) == 1):
        return x
    names, n, inits, posts, kinds = x.a[1][0].a
    c = next((c for c in range(4) if holds(cmp_eq(n, const(c))) is True), None)
    if c is None:
        return x
    v = inits[0]
    h = int(names[0][1:])
    for i in range(c):
        v = subst(posts[0], {names[0]: const(i)}, {'@%d_0' % h: lambda nm, args, y, v=v: v})
    return v


def fold_open(x, k, accs=None):
    names, n, inits, posts, kinds = x.a
    h = int(names[0][1:])
    accs = accs or [fresh_name('φ') for _ in inits]
    phi = {'@%d_%d' % (h, j): _renamer('@%d_%d' % (h, j), a) for j, a in enumerate(accs)}
    return [subst(p, {names[0]: atom(k)}, phi) for p in posts], accs


def fold_prj(fo, j, idx, sort):
    if fo.op == 'fold' and fo.a[1].op == 'poly' and not fo.a[1].a:
        v = fo.a[2][j]
        if not idx and v.op == 'poly':
            return v
    return atom(mk('prj', fo, j, idx, sort))


# --------------------------------------------------------------------------
# differentiation
# --------------------------------------------------------------------------

def diff(p, x):
    """d p / d x for an atom x (real symbol)."""
    p = num(p)
    out = []
    for m, c in p.a:
        for i, (y, e) in enumerate(m):
            dy = _diff_atom(y, x)
            if dy is None or dy.a:
                if dy is None:
                    return None
                rest = m[:i] + m[i + 1:]
                if y.op == 'polya':
                    t = mul(_poly({rest: c * e}), mul(dy, power(y.a[0], e - 1)))
                else:
                    t = mul(_poly({rest: c * e}), mul(dy, _poly({((y, e - 1),): Fraction(1)} if e != 1 else {(): Fraction(1)})))
                out.append(t)
    return add(*out) if out else ZERO


def _diff_atom(y, x):
    if y is x:
        return ONE
    if not occurs(x, y):
        return ZERO
    if y.op == 'app':
        f = y.a[0]
        if f == 'exp':
            d = diff(y.a[1][0], x)
            return None if d is None else mul(atom(y), d)
        if f == 'sqrt':
            d = diff(y.a[1][0], x)
            return None if d is None else scale(mul(d, _poly({((y, -1),): Fraction(1)})), Fraction(1, 2))
        if f == 'cos':
            d = diff(y.a[1][0], x)
            return None if d is None else neg(mul(f_sin(y.a[1][0]), d))
        if f == 'sin':
            d = diff(y.a[1][0], x)
            return None if d is None else mul(f_cos(y.a[1][0]), d)
        if f == 'ln':
            d = diff(y.a[1][0], x)
            return None if d is None else div(d, y.a[1][0])
        if f == 'atan2':
            b, a = y.a[1]
            da, db = diff(a, x), diff(b, x)
            if da is None or db is None:
                return None
            return div(sub(mul(a, db), mul(b, da)), add(mul(a, a), mul(b, b)))
        return None
    if y.op == 'polya':
        return diff(y.a[0], x)
    if y.op == 'nite':
        a, b = diff(y.a[1], x), diff(y.a[2], x)
        if a is None or b is None:
            return None
        return nite(y.a[0], a, b)
    if y.op == 'sum':
        names, ns, body = y.a
        vs = [fresh('t') for _ in names]
        env = {o: atom(v) for o, v in zip(names, vs)}
        b = diff(subst(body, env), x)
        if b is None:
            return None
        for v, n in reversed(list(zip(vs, ns))):
            CTX.ranges[v.a[0]] = n
            b = _sum1(v, n, b)
        return b
    return None


# --------------------------------------------------------------------------
# printing
# --------------------------------------------------------------------------

def show(x, d=0):
    if not isinstance(x, Node):
        if isinstance(x, tuple):
            return '(' + ','.join(show(y, d) for y in x) + ')'
        return str(x)
    if d > 14:
        return '…'
    op = x.op
    if op == 'poly':
        if not x.a:
            return '0'
        out = []
        for m, c in x.a:
            s = '*'.join(show(y, d + 1) + ('^%d' % e if e != 1 else '') for y, e in m)
            if not s:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = str(c) + '*' + s
            out.append(s)
        r = ' + '.join(out)
        return r if len(x.a) == 1 else '(' + r + ')'
    if op == 'app':
        nm = str(x.a[0])
        return nm if not x.a[1] else nm + '(' + ','.join(show(y, d + 1) for y in x.a[1]) + ')'
    if op == 'obj':
        return str(x.a[0]) + ('{' + ','.join(show(y, d + 1) for y in x.a[1]) + '}' if x.a[1] else '')
    if op == 'var':
        return x.a[0]
    if op == 'sum':
        return 'Σ[' + ','.join('%s<%s' % (n, show(b, d + 1)) for n, b in zip(x.a[0], x.a[1])) + '](' + show(x.a[2], d + 1) + ')'
    if op == 'seql':
        return '[%s | %s<%s]' % (show(x.a[2], d + 1), x.a[0][0], show(x.a[1], d + 1))
    if op == 'ge':
        return '(%s >= 0)' % show(x.a[1], d + 1)
    if op == 'gt':
        return '(%s > 0)' % show(x.a[1], d + 1)
    if op == 'eq':
        return '(%s == 0)' % show(x.a[1], d + 1)
    if op in ('ite', 'nite'):
        return 'if(%s, %s, %s)' % tuple(show(y, d + 1) for y in x.a)
    if op == 'polya':
        return show(x.a[0], d + 1)
    if op == 'adt':
        return '%s#%s(%s)' % (x.a[0].split('::')[-1], x.a[1], ', '.join(show(y, d + 1) for y in x.a[2]))
    if op == 'it':
        return 'It[%s | %s<%s @%s]' % (show(x.a[2], d + 1), x.a[0][0], show(x.a[1], d + 1), show(x.a[3], d + 1))
    return op + '(' + ', '.join(show(y, d + 1) for y in x.a) + ')'
